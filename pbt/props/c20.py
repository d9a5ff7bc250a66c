"""C20: the superlattice program writes each inequivalent superlattice once, for primitive input only."""
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G, texts as T
from props.c07 import all_hnf, all_hnf2, key, orbits, rotations
from props.c19 import clean, steady, infile, read_out
from engine import Facet, Prop, must


@st.composite
def case(draw):
    want_prim = draw(st.sampled_from([True] * 6 + [False]))
    base = st.one_of(G.proto_cell(4, 1, ghost=False), G.proto_cell(4, 1, ghost=False), G.orbit_cell(4, ghost=False))
    if not want_prim:
        base = G.proto_cell(8, 4, ghost=False)
    c = clean(draw(G.dressed(base, recolor=False, ghost=False)))
    assume(steady(c))
    L, p, n = G.arrs(c)
    assume(len(set(tuple(np.round(x % 1, 3) % 1) for x in p)) == len(n))
    runs = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        ld = draw(st.booleans())
        runs.append({'ld': ld, 'v': draw(st.sampled_from([None, 1, 2, 3, 4, 5] if not ld else [1, 2, 3, 4, 5, 6])), 'out': draw(st.sampled_from([None, 'yaml', 'vasp'])),
                     'comment': draw(st.sampled_from([None, None, 'abc']))})
    d = {'cell': c, 'runs': runs, 'seed': draw(st.integers(0, 999)), 'dull': draw(st.booleans())}
    d['name'], d['text'] = draw(infile(c))
    return d


def classify(L, p, n, d, rep, index, what):
    """orbit of the superlattice in a file"""
    fl, fp, fn = np.array(d['lat'], float), np.array(d['pos'], float).reshape(-1, 3), np.array(d['num'])
    must(abs(abs(np.linalg.det(fl)) / abs(np.linalg.det(L)) - index) < 1e-2, what + 'a cell of volume ratio %.4f' % abs(np.linalg.det(fl) / np.linalg.det(L)))
    must(sorted(fn.tolist()) == sorted(n.tolist() * index), what + 'composition %s' % sorted(fn.tolist()))
    try:
        PL, pp, pn = C.primitive(fl, fp, fn)
    except RuntimeError:
        must(False, what + 'the file does not repeat the unit cell')
    must(len(pn) == len(n), what + 'the file does not repeat the unit cell')
    iso = C.isometries_between(L, p, n, PL, pp, pn, 2e-3, first=True)
    must(iso, what + 'the crystal in the file is another one')
    NB = iso[0][0] @ C.lat_reduce(PL)[0]
    M = fl @ np.linalg.inv(NB)
    must(np.abs(M - np.rint(M)).max() < 2e-2, what + 'not a superlattice: %s' % M.tolist())
    return rep.get(key(np.rint(M).astype(int)))


def run(w, case):
    L, p, n = G.arrs(case['cell'])
    prim = C.is_primitive(L, p, n, tol=G.TOL)
    runs = []
    for r in case['runs']:
        a = ['suplat', case['name']]
        if r['v'] is not None:
            a += ['-v', r['v']]
        if r['ld']:
            a += ['-L']
        if r['out']:
            a += ['-o', r['out']]
        if r['comment']:
            a += ['-c', r['comment']]
        runs.append(a)
    stale = {'SUPLAT_default/old.yaml': 'stale', 'keep.txt': 'keep'} if case['seed'] % 2 else {'keep.txt': 'keep'}
    files = dict(stale)
    files[case['name']] = case['text']
    out = w.call('cli', prog='aba', files=files, runs=runs, dull=case['dull'], seed=case['seed'])
    model = {k.split('/')[0] + '/': None for k in files if '/' in k}
    lab = []
    nt = False
    touched = set()
    for r, a, o in zip(case['runs'], runs, out):
        t = o['tree']
        what = ' '.join(map(str, a)) + ': '
        must(t.get(case['name']) == case['text'] and t.get('keep.txt') == 'keep', what + 'a file of the user changed')
        if not prim:
            must(o['code'] != 0, what + 'a structure that is not primitive was accepted')
            must({k: v for k, v in t.items() if not k.endswith('/')} == files and set(k for k in t if k.endswith('/')) == set(model), what + 'files appeared although the input was refused: %s' % sorted(t))
            lab.append('refused')
            nt = True
            continue
        must(o['code'] == 0, what + 'ended with %s %s' % (o['code'], o['exc'] or o['output'][-300:]))
        d = 'SUPLAT_%s/' % (r['comment'] or 'default')
        touched.add(d)
        must(d in t, what + 'no directory %s: %s' % (d, sorted(t)))
        must(set(k for k in t if k.endswith('/')) == touched | set(model), what + 'directories %s' % [k for k in t if k.endswith('/')])
        fs = {k[len(d):]: v for k, v in t.items() if k.startswith(d) and k != d}
        index = r['v'] or 1
        full = all_hnf2(index) if r['ld'] else all_hnf(index)
        rep = orbits(full, rotations(case['cell']))
        want = set(rep.values())
        if r['ld']:
            # rotations may turn one in-plane superlattice into another only through the plane itself
            rep = {h: v for h, v in rep.items()}
        must(len(fs) == len(want), what + '%d files, there are %d inequivalent superlattices' % (len(fs), len(want)))
        fmt = r['out'] or 'yaml'
        got = []
        for k in sorted(fs):
            must(k.startswith('SUPLAT_%d_' % index), what + 'file %s' % k)
            x = read_out(fmt, k, fs[k])
            if r['ld']:
                # orbit within all superlattices of the index, then compare the in-plane ones
                allrep = orbits(all_hnf(index), rotations(case['cell']))
                g = classify(L, p, n, x, allrep, index, what)
                must(g is not None, what + 'not a superlattice of index %d' % index)
            else:
                g = classify(L, p, n, x, rep, index, what)
                must(g is not None, what + 'not a superlattice of index %d' % index)
            got.append(g)
        if r['ld']:
            need = sorted(allrep[h] for h in want) if want else []
            must(sorted(got) == need, what + 'superlattices %s, expected %s' % (sorted(got), need))
        else:
            must(len(set(got)) == len(got), what + 'two files hold equivalent superlattices')
            must(set(got) == want, what + 'a superlattice is missing')
        lab += ['2d' if r['ld'] else '3d', fmt, 'v%d' % index]
        nt = nt or len(want) > 1
    return nt, lab


PROP = Prop('C20', [Facet('suplat', case(), run, 420)],
            'Primitive unit cells (1-4 atoms, dressed, 4 decimals) and non-primitive ones; index 1-6, in three dimensions or the plane, '
            'yaml/vasp, comment; one or two runs in a directory that may hold an older result; half of the runs with a mostly '
            'repeating source of random names. Oracle: orbits of all Hermite normal forms under the independently found rotations; '
            'every file is mapped back through an isometry of its crystal onto the unit cell. Non-trivial: more than one '
            'superlattice, or input that has to be refused.',
            ['input symmetry the same at 0.0006 and 0.06 Angstrom'])
