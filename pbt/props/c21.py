"""C21: the structure tools (remove atoms, perturb, supercell, primitive cell) write exactly the edited structure."""
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G, texts as T
from props.c11 import match_cell
from props.c12 import parse_yaml
from props.c16 import dists, clear
from props.c19 import clean, steady, infile
from props.c09 import standard_primitive
from engine import Facet, Prop, must

OUTS = {'POSCAR': 'POSCAR', 'cell.vasp': 'cell', 'POSCAR.x': 'POSCAR', 'cell.yaml': 'cell', 'a.b.yaml': 'a'}


@st.composite
def tcell(draw, max_atoms=8, ghost=False):
    c = clean(draw(G.crystals(max_atoms, ghost=False, min_atoms=2)))
    assume(len(set(tuple(np.round(np.array(x) % 1, 3) % 1) for x in c['pos'])) == len(c['num']))
    assume(C.min_pair_dist(*G.arrs(c)[:2]) > 0.5)
    return c


@st.composite
def withfile(draw, d):
    d['name'], d['text'] = draw(infile(d['cell']))
    d['dir'] = draw(st.sampled_from(['', '', 'sub.d/']))
    return d


def go(w, case, args, seed=0):
    name = case['dir'] + case['name']
    args = [args[0], name] + args[1:]
    r = w.call('cli', prog='ati', files={name: case['text']}, runs=[args], dull=False, seed=seed)[0]
    must(r['code'] == 0, '%s ended with %s %s' % (args, r['code'], r['exc'] or r['output'][-300:]))
    t = r['tree']
    must(t.get(name) == case['text'], 'the input file changed')
    fs = {k: v for k, v in t.items() if k != name and not k.endswith('/')}
    return fs, r['output']


def only(fs, want):
    must(sorted(fs) == [want], 'files %s, expected %s' % (sorted(fs), want))
    return fs[want]


@st.composite
def acase(draw):
    c = draw(tcell())
    zs = sorted(set(c['num']))
    d = {'cell': c, 'cen': draw(st.sampled_from(zs * 3 + [77])), 'ele': draw(st.sampled_from(zs * 3 + [77])),
         'r': draw(st.sampled_from([None, 0.1, 1.0, 1.9, 2.3, 2.7, 3.2, 3.9, 4.6])), 'refined': draw(st.sampled_from([None, True, False, False]))}
    if draw(st.integers(0, 1)) == 0 and d['cen'] in zs:      # just inside or outside of a distance that occurs
        L, p, n = G.arrs(c)
        if draw(st.integers(0, 3)):
            d['refined'] = False
        if d['ele'] not in zs:
            d['ele'] = draw(st.sampled_from(zs))
        k = dists(L, p[n == d['ele']], p[n == d['cen']][0])
        k = k[k > 0.1]
        if len(k):
            d['r'] = round(float(k[draw(st.integers(0, len(k) - 1))]), 5) + draw(st.sampled_from([3e-4, -3e-4, 2e-3, -2e-3]))
    return draw(withfile(d))


def run_clear(w, case):
    L, p, n = G.arrs(case['cell'])
    gone = np.zeros(len(n), bool)
    r = case['r'] or 0
    for x in p[n == case['cen']]:
        d = dists(L, p, x)
        if r and not clear(d, r):
            return False, ['tie']
        gone |= d < r
    gone &= n == case['ele']
    if gone.all():
        return False, ['nothing left']
    rest = (L, p[~gone], n[~gone])
    ref = case['refined'] is not False
    if ref and not steady(G.cell(*rest)):
        return False, ['unsteady']
    a = ['atclear', '-c', G.Z2S[case['cen']], '-e', G.Z2S[case['ele']]]
    if case['r'] is not None:
        a += ['-r', case['r']]
    if case['refined'] is not None:
        a.append('--refined' if case['refined'] else '--no-refined')
    fs, _ = go(w, case, a)
    out = T.parse_poscar(only(fs, OUTS[case['name']] + '_ACLR.vasp'))
    what = 'after removing Z=%d within %s of Z=%d' % (case['ele'], r, case['cen'])
    if ref:
        X = (np.array(out['lat']), np.array(out['pos']), np.array(out['num']))
        must(C.same_crystal(rest, X), what + ': the file holds another crystal: %s' % {k: np.array(v).tolist() for k, v in out.items() if k in ('lat', 'pos', 'num')})
        must(standard_primitive(X[0], 2e-4), what + ': the lattice %s of the refined structure is not in standard orientation' % X[0].tolist())
        k = C.n_pure_translations(*rest, tol=G.TOL)
        must(len(out['num']) * k == len(rest[2]), what + ': %d atoms in the primitive cell, expected %d' % (len(out['num']), len(rest[2]) // k))
    else:
        match_cell(L, rest[1], rest[2], out, what, 2e-6, 2e-6)
    return 0 < gone.sum(), ['refined' if ref else 'plain', 'removed%d' % min(3, gone.sum())]


@st.composite
def pcase(draw):
    return draw(withfile({'cell': draw(tcell()), 'r': draw(st.sampled_from([None, 0.0, 0.01, 0.05, 0.1, 0.2])), 'seed': draw(st.integers(0, 9999))}))


def run_perturb(w, case):
    L, p, n = G.arrs(case['cell'])
    r = case['r'] or 0
    fs, _ = go(w, case, ['perturb'] + ([] if case['r'] is None else ['-r', case['r']]), seed=case['seed'])
    out = T.parse_poscar(only(fs, OUTS[case['name']] + '_PURB.vasp'))
    must(np.abs(np.array(out['lat']) - L).max() < 2e-6, 'the lattice changed')
    must(sorted(out['num']) == sorted(n.tolist()), 'the composition changed: %s' % out['num'])
    q = np.array(out['pos'])
    eps = 1e-5 * max(1, np.abs(L).sum())
    # each atom is at distance r from exactly one of the old sites of its element (sites are 0.5 apart, r <= 0.2)
    used = set()
    for x, z in zip(q, out['num']):
        d = dists(L, p, x)
        near = [j for j in range(len(n)) if abs(d[j] - r) < eps and n[j] == z]
        must(len(near) >= 1, 'an atom Z=%d moved by %s instead of %s' % (z, d.min(), r))
        near = [j for j in near if j not in used]
        must(len(near) >= 1, 'two atoms come from one site')
        used.add(min(near, key=lambda j: d[j]))
    return r > 0, ['r%s' % case['r']]


@st.composite
def scase(draw):
    c = draw(tcell(5))
    s = draw(st.sampled_from([[1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1], [1, 3, 1], [3, 1, 2], [1, 2, 3], [2, 1, 2]]))
    return draw(withfile({'cell': c, 's': s, 'out': draw(st.sampled_from([None, 'stdio', 'vasp', 'yaml']))}))


def output(case, fs, out, base):
    if case['out'] in (None, 'stdio'):
        must(fs == {}, 'files %s although the result goes to the terminal' % sorted(fs))
        lines = out.split('\n')
        if lines[0].startswith('PROCESSING'):
            lines = lines[1:]
        return T.parse_poscar('\n'.join(lines).rstrip('\n') + '\n')
    t = only(fs, base + '.' + case['out'])
    return T.parse_poscar(t) if case['out'] == 'vasp' else parse_yaml(t)


def run_supcell(w, case):
    fs, o = go(w, case, ['supcell', '-s'] + case['s'] + ([] if case['out'] is None else ['--outmode', case['out']]))
    out = output(case, fs, o, OUTS[case['name']] + '_SUPC')
    L, p, n = G.expand(*G.arrs(case['cell']), np.diag(case['s']))
    match_cell(L, p, n, out, 'supercell %s' % case['s'], 2e-6, 2e-6)
    return len(set(case['s'])) > 1, [str(case['out']), 'x%d' % np.prod(case['s'])]


@st.composite
def ccase(draw):
    c = draw(tcell(8))
    assume(steady(c))
    return draw(withfile({'cell': c, 'out': draw(st.sampled_from([None, 'stdio', 'vasp', 'yaml']))}))


def run_pcell(w, case):
    fs, o = go(w, case, ['pcell'] + ([] if case['out'] is None else ['--outmode', case['out']]))
    out = output(case, fs, o, OUTS[case['name']] + '_PRIMC')
    A = G.arrs(case['cell'])
    X = (np.array(out['lat']), np.array(out['pos']).reshape(-1, 3), np.array(out['num']))
    must(C.same_crystal(A, X), 'the primitive cell holds another crystal: %s' % [np.array(x).tolist() for x in X])
    must(standard_primitive(X[0], 2e-4), 'the lattice %s of the primitive cell is not in standard orientation' % X[0].tolist())
    k = C.n_pure_translations(*A, tol=G.TOL)
    must(len(X[2]) * k == len(A[2]), '%d atoms in the primitive cell, expected %d' % (len(X[2]), len(A[2]) // k))
    return k > 1, [str(case['out']), 'k%d' % k]


PROP = Prop('C21', [Facet('atclear', acase(), run_clear, 350), Facet('perturb', pcase(), run_perturb, 200), Facet('supcell', scase(), run_supcell, 300),
                    Facet('pcell', ccase(), run_pcell, 300)],
            'Command lines of the four tools on generated POSCAR and YAML files (1-8 atoms), in the working or another directory; centre and '
            'removed element incl. absent ones, radius, refined or plain; displacement length; scale; output to the terminal or a file. '
            'Oracle: own readers, nearest-image distances, supercell expansion, crystal comparison up to rigid motion. '
            'Non-trivial: something is removed, moved, or the cell changes.',
            ['refined results: symmetry the same at 0.0006 and 0.06 Angstrom', 'no atom within 1e-5 of the radius'])
