"""C19: the occupation programs write every distinct structure asked for, each to its own file, and nothing else."""
import itertools, math, re
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G, occ, texts as T
from props.c09 import standard_primitive
from props.c12 import parse_yaml, make_yaml, formula
from engine import Facet, Prop, must, Violation

MAXC = 700
TIGHT = 6e-4


def clean(c):
    """4 decimals, the precision the readers keep"""
    L, p, n = G.arrs(c)
    return G.cell(np.round(L, 4), np.round(p, 4), n)


def steady(c):
    L, p, n = G.arrs(c)
    a, b = G.lat_ops(L, TIGHT), G.lat_ops(L, G.TOL_WIDE)
    return len(a) == len(b) and len(C.symmetries(L, p, n, TIGHT, lat_ops=a)) == len(C.symmetries(L, p, n, G.TOL_WIDE, lat_ops=b))


@st.composite
def cli_cell(draw, max_atoms=8, recolor=True):
    c = clean(draw(G.crystals(max_atoms, ghost=False, min_atoms=5, recolor=recolor)))
    assume(len(c['num']) >= draw(st.sampled_from([4, 4, 4, 4, 1])))
    assume(steady(c))
    assume(len(set(tuple(np.round(np.array(x) % 1, 3) % 1) for x in c['pos'])) == len(c['num']))
    return c


@st.composite
def infile(draw, c, kinds=('vasp', 'yaml')):
    """a file that holds c, and its name"""
    L, p, n = G.arrs(c)
    if draw(st.sampled_from(kinds)) == 'vasp':
        order = list(draw(st.permutations(sorted(set(c['num'])))))
        name = draw(st.sampled_from(['POSCAR', 'cell.vasp', 'POSCAR.x']))
        return name, T.make_poscar(L, p, n, order, 1, 'direct', 'input', {}, draw(st.booleans()))
    style = {'flow': draw(st.sampled_from(['flow', 'mixed', 'block'])), 'hash': draw(st.booleans()), 'order': ['comment', 'lattice', 'positions', 'numbers', 'zoom']}
    return draw(st.sampled_from(['cell.yaml', 'a.b.yaml'])), make_yaml(L, p, n, '1', style, 'input')


@st.composite
def restrictions(draw, c, zs):
    out = []
    L, p, n = G.arrs(c)
    ds = sorted({round(C.min_pair_dist(L, p[[i]], p[[j]]), 3) for i in range(len(n)) for j in range(i)} | {round(float(np.linalg.norm(v)), 3) for v in L})
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2, 2, 3]))):
        z = draw(st.sampled_from(zs))
        d = draw(st.sampled_from(ds[:4] + [1.0, 1.0]))
        out.append([z, round(d * draw(st.sampled_from([0.5, 0.9, 1.02, 1.1])), 3)])
    return out


@st.composite
def ucase(draw):
    """one species substituted: ocumaker (all counts up to n) and ocubiter (n exactly)"""
    c = draw(cli_cell())
    zs = sorted(set(c['num']))
    ele = max(zs, key=c['num'].count) if draw(st.integers(0, 3)) else draw(st.sampled_from(zs))
    m = c['num'].count(ele)
    prog = draw(st.sampled_from(['ocumaker', 'ocubiter']))
    spz = draw(st.sampled_from([None, 0, 0, 30, 50, 16] + zs))
    z = 0 if spz is None else spz
    assume(z != ele and (prog != 'ocumaker' or z not in zs))
    rest = len(c['num']) - m
    hi = m if (rest or z) else m - 1
    # a structure of vacancies only cannot be written down
    n = draw(st.one_of(st.none(), st.integers(2, max(hi, 2)), st.integers(1, max(hi, 1)))) if m > 2 else draw(st.integers(1, max(hi, 1)))
    d = {'prog': prog, 'cell': c, 'ele': ele, 'omit_e': len(zs) == 1 and m > 1 and draw(st.booleans()), 'sp': spz, 'n': n,
         'refined': draw(st.sampled_from([None, True, False, False])), 'out': draw(st.sampled_from([None, 'vasp', 'yaml'])),
         'comment': draw(st.sampled_from([None, 'abc', 'x_1'])), 'tr': draw(restrictions(c, zs + [z] * 2)), 'seed': draw(st.integers(0, 999)),
         'dull': draw(st.booleans())}
    if prog == 'ocubiter':
        d['mpr'] = draw(st.sampled_from([None, True, False, False]))
    d['name'], d['text'] = draw(infile(c))
    cnt = d['n'] if d['n'] is not None else (m // 2 + 1 if prog == 'ocubiter' else m - 1)
    ks = [cnt] if prog == 'ocubiter' else range(1, cnt + 1)
    assume(max(cnt, 0) <= hi and sum(math.comb(m, k) for k in ks) <= MAXC and len(ks))
    d['ks'] = list(ks)
    return d


@st.composite
def tcase(draw):
    """two species substituted: ocutenter (n1, n2 exactly) and ocumakert (all counts)"""
    c = draw(cli_cell(draw(st.sampled_from([7, 7, 8])), recolor=draw(st.integers(0, 2)) == 0))
    if draw(st.integers(0, 5)) == 0:          # tiny numbers are written in the form 1e-05
        i, k = draw(st.integers(0, len(c['num']) - 1)), draw(st.integers(0, 2))
        if c['pos'][i][k] == 0:
            c['pos'][i][k] = 1e-05
    zs = sorted(set(c['num']))
    ele = max(zs, key=c['num'].count) if draw(st.integers(0, 3)) else draw(st.sampled_from(zs))
    m = c['num'].count(ele)
    pool = [x for x in [0, 30, 50, 16, 79] + zs if x != ele]
    s1 = draw(st.sampled_from(pool))
    s2 = draw(st.sampled_from([x for x in pool if x != s1]))
    prog = draw(st.sampled_from(['ocutenter', 'ocutenter', 'ocumakert', 'ocumakert']))
    d = {'prog': prog, 'cell': c, 'ele': ele, 'omit_e': len(zs) == 1 and m > 1 and draw(st.booleans()), 's': [s1, s2],
         'refined': draw(st.sampled_from([None, True, False, False])), 'out': draw(st.sampled_from([None, 'vasp', 'yaml'])),
         'comment': draw(st.sampled_from([None, 'abc'])), 'tr': draw(restrictions(c, zs + [s1, s2])), 'seed': draw(st.integers(0, 999)),
         'dull': draw(st.booleans()), 'zoom': draw(st.sampled_from([None, None, 1.0, 2.0, 0.8])), 'fzoom': draw(st.sampled_from(['1', '1.25', '1.5']))}
    if prog == 'ocutenter':
        assume(m >= 2)
        n1 = draw(st.integers(1, m - 1))
        n2 = draw(st.integers(1, m - n1))
        even = [(k * a, k * b) for k in (2, 3) for a in range(1, m) for b in range(1, m) if m % k == 0 and k * (a + b) <= m]
        if even and draw(st.integers(0, 1)):      # counts that allow for a smaller cell
            n1, n2 = draw(st.sampled_from(even))
        d['n'] = [n1, n2]
        d['mpr'] = draw(st.sampled_from([None, True, False, False]))
        d['ks'] = [[n1, n2]]
    else:
        assume(3 <= m <= 6)
        d['ks'] = [[a, b] for a in range(1, m - 1) for b in range(1, m - a)]
    assume(sum(math.comb(m, a) * math.comb(m - a, b) for a, b in d['ks']) <= MAXC)
    style = {'flow': draw(st.sampled_from(['flow', 'mixed', 'block'])), 'hash': draw(st.booleans()),
             'order': list(draw(st.permutations(['comment', 'lattice', 'positions', 'numbers', 'zoom'])))}
    L, p, n = G.arrs(c)
    d['fcomment'] = 'input'
    if draw(st.integers(0, 4)) == 0:          # the scale and the comment may be left out
        style['order'].remove('zoom')
        d['fzoom'] = '1'
    if draw(st.integers(0, 4)) == 0:
        style['order'].remove('comment')
        d['fcomment'] = ''
    d['name'], d['text'] = draw(st.sampled_from(['cell.yaml', 'settings'])), make_yaml(L, p, n, d['fzoom'], style, 'input')
    return d


def flag(args, v, yes, no):
    if v is not None:
        args.append(yes if v else no)


def files_of(w, case, args):
    name, text = case['name'], case['text']
    r = w.call('cli', prog='aba', files={name: text, 'other.txt': 'keep'}, runs=[args], dull=case['dull'], seed=case['seed'])[0]
    must(r['code'] == 0, '%s ended with %s %s' % (args, r['code'], r['exc'] or r['output'][-300:]))
    t = r['tree']
    must(t.get(name) == text and t.get('other.txt') == 'keep', 'a file of the user changed')
    dirs = [k for k in t if k.endswith('/')]
    must(len(dirs) == 1, 'directories %s' % dirs)
    fs = {k: v for k, v in t.items() if k not in (name, 'other.txt') and not k.endswith('/')}
    must(all(k.startswith(dirs[0]) for k in fs), 'files outside of the directory of results: %s' % sorted(fs))
    return dirs[0], {k[len(dirs[0]):]: v for k, v in fs.items()}


def read_out(fmt, name, text):
    must(name.endswith('.' + fmt), 'file %s, asked for the format %s' % (name, fmt))
    d = T.parse_poscar(text) if fmt == 'vasp' else parse_yaml(text)
    z = d.get('zoom', 1)
    if fmt == 'yaml':
        d['lat'] = np.array(d['lat']) * z
    return d


def expected(cell, labs, mpr, tr):
    """one labelling per symmetry class that passes the filters"""
    L, p, n = G.arrs(cell)
    perms = C.perm_set(C.symmetries(L, p, n, G.TOL, lat_ops=G.lat_ops(L, G.TOL)))
    alpha = set(n.tolist()).union(*[set(x) for x in labs]) if labs else set(n.tolist())
    O = occ.Orbits(perms, alpha)
    reps = {}
    for l, k in zip(labs, O.canon(labs)):
        reps.setdefault(k, l)
    keep = []
    close = False
    for k, l in reps.items():
        a = np.array(l)
        if mpr and not C.is_primitive(L, p, a, tol=G.TOL):
            continue
        bad = False
        for z, d in tr:
            m = C.min_pair_dist(L, p[a == z])
            close = close or abs(m - d) < 2e-3
            bad = bad or m <= d
        if not bad:
            keep.append(l)
    return O, reps, keep, close


def judge(case, cell, labs, mpr, refined, fmt, fs, name_of):
    """the files fs against the filtered enumeration"""
    L, p, n = G.arrs(cell)
    O, reps, keep, close = expected(cell, labs, mpr, case['tr'])
    if close:
        return False, ['tie']
    what = '%s: ' % case['prog']
    must(len(fs) == len(keep), what + '%d files, there are %d structures (of %d before filtering)' % (len(fs), len(keep), len(reps)))
    parsed = []
    for k in sorted(fs):
        d = read_out(fmt, k, fs[k])
        parsed.append(d)
        must(name_of(k, d), what + 'the name %s does not go with the content %s' % (k, formula([int(x) for x in d['num']])))
    lab = [case['prog'], fmt, 'refined' if refined else 'plain', 'filtered' if len(keep) < len(reps) else 'unfiltered']
    drop = fmt == 'vasp'
    if not refined:
        # the sites are those of the input
        seen = {}
        for d in parsed:
            must(np.abs(np.array(d['lat']) - L).max() < 2e-6, what + 'lattice %s, expected %s' % (np.array(d['lat']).tolist(), L.tolist()))
            q = np.array(d['pos']).reshape(-1, 3)
            l = [None] * len(n)
            for x, z in zip(q, d['num']):
                dd = p - x
                dd = np.abs(dd - np.rint(dd)).max(1)
                j = int(dd.argmin())
                must(dd[j] < 2e-6 and l[j] is None, what + 'an atom at %s' % x.tolist())
                l[j] = int(z)
            if drop:
                l = [0 if x is None else x for x in l]
            must(None not in l, what + 'a site is missing')
            must(all(x in O.alpha for x in l), what + 'a foreign element in %s' % l)
            c = O.canon([l])[0]
            must(c in reps, what + 'a structure that was not asked for: %s' % l)
            must(c not in seen, what + 'two files hold equivalent structures: %s and %s' % (l, seen.get(c)))
            seen[c] = l
        must(set(seen) == set(O.canon(keep)), what + 'a structure that had to be filtered out was written, another is missing')
    else:
        strip = (lambda a: (L, p[a != 0], a[a != 0])) if drop else (lambda a: (L, p, a))
        classes = []                   # [crystal, volumes]
        for l in keep:
            a = np.array(l)
            v = abs(np.linalg.det(L)) / C.n_pure_translations(L, p, a, tol=G.TOL)
            X = strip(a)
            put(classes, X, v, 'want')
        for d in parsed:
            must(standard_primitive(d['lat'], 2e-4), what + 'the lattice %s of a refined structure is not in standard orientation' % np.array(d['lat']).tolist())
            k = put(classes, (np.array(d['lat']), np.array(d['pos']).reshape(-1, 3), np.array(d['num'])), abs(np.linalg.det(np.array(d['lat']))), 'got')
            must(k, what + 'the crystal in a file is none of the structures asked for: %s' % {a: np.array(b).tolist() for a, b in d.items() if a in ('lat', 'pos', 'num')})
        for X, want, got in classes:
            must(len(want) == len(got), what + '%d files for %d structures that look like %s' % (len(got), len(want), X))
            must(np.allclose(sorted(want), sorted(got), rtol=1e-3), what + 'cells of volume %s, the primitive ones have %s' % (sorted(got), sorted(want)))
    return len(keep) >= 2, lab + ['many' if len(keep) > 5 else 'few']


def put(classes, X, v, side):
    for c in classes:
        if C.same_crystal(c[0], X, tol=2e-3):
            c[1 if side == 'want' else 2].append(v)
            return True
    if side == 'want':
        classes.append([X, [v], []])
        return True
    return False


def sym(z):
    return G.Z2S[z]


def run_unitary(w, case):
    a = [case['prog'], case['name']]
    if not case['omit_e']:
        a += ['-e', sym(case['ele'])]
    if case['sp'] is not None:
        a += ['-s', sym(case['sp'])]
    if case['n'] is not None:
        a += ['-n', case['n']]
    for z, d in case['tr']:
        a += ['-r', sym(z), d]
    flag(a, case['refined'], '--refined', '--no-refined')
    flag(a, case.get('mpr'), '-S', '-N')
    if case['out']:
        a += ['-o', case['out']]
    if case['comment']:
        a += ['-c', case['comment']]
    d, fs = files_of(w, case, a)
    com = case['comment'] or formula(case['cell']['num'])
    must(d.startswith('STRUCTURES_%s_' % com), 'the directory is called %s' % d)
    L, p, n = G.arrs(case['cell'])
    el = [i for i in range(len(n)) if n[i] == case['ele']]
    z = case['sp'] or 0
    labs = set()
    for k in case['ks']:
        labs |= occ.labelings(n.tolist(), el, k, z)
    return judge(case, case['cell'], sorted(labs), case.get('mpr') is not False, case['refined'] is not False, case['out'] or 'vasp', fs,
                 lambda k, d: k.startswith('STRUCTURE_%s_' % formula([int(x) for x in d['num']])))


def run_ternary(w, case):
    a = [case['prog'], case['name'], '--speckle', sym(case['s'][0]), sym(case['s'][1])]
    if not case['omit_e']:
        a += ['--element', sym(case['ele'])]
    if 'n' in case:
        a += ['-n', case['n'][0], case['n'][1]]
    for z, d in case['tr']:
        a += ['-r', sym(z), d]
    flag(a, case['refined'], '--refined', '--no-refined')
    flag(a, case.get('mpr'), '-S', '-N')
    if case['zoom'] is not None:
        a += ['--zoom', case['zoom']]
    if case['out']:
        a += ['--outmode', case['out']]
    if case['comment']:
        a += ['--comment', case['comment']]
    L, p, n = G.arrs(case['cell'])
    z = case['zoom'] if case['zoom'] is not None else float(case['fzoom'])
    cell = G.cell(L * z, p, n)
    if not steady(cell):
        return False, ['unsteady']
    d, fs = files_of(w, case, a)
    com = case['comment'] or case['fcomment']       # neither given: any name
    must(d.startswith('STRUCTURES_%s_' % com if com else 'STRUCTURES_'), 'the directory is called %s' % d)
    el = [i for i in range(len(n)) if n[i] == case['ele']]
    labs = set()
    for n1, n2 in case['ks']:
        labs |= occ.labelings2(n.tolist(), el, n1, case['s'][0], n2, case['s'][1])
    fmt = case['out'] or 'vasp'
    pre = 'POSCAR' if fmt == 'vasp' else 'STRUCTURE'
    m = len(el)
    base = {s: n.tolist().count(s) for s in case['s']}
    nr = len(n)

    def name_of(k, d):
        mm = re.match(pre + r'_A(\d+)B(\d+)C(\d+)_', k)
        if not mm:
            return False
        x = [int(v) for v in mm.groups()]
        if sum(x) != m or [x[1], x[2]] not in case['ks']:
            return False
        if case['refined'] is False:
            num = [int(v) for v in d['num']]
            for s, v in zip(case['s'], x[1:]):
                if s and num.count(s) != base[s] + v:
                    return False
        return True
    return judge(case, cell, sorted(labs), case.get('mpr') is not False, case['refined'] is not False, fmt, fs, name_of)


PROP = Prop('C19', [Facet('one_species', ucase(), run_unitary, 400), Facet('two_species', tcase(), run_ternary, 280)],
            'Command lines of the four occupation programs (element, species, counts, 0-3 distance restrictions, refined or plain, '
            'primitive only or all, vasp or yaml, comment, zoom, defaults) on generated structure files of 1-8 atoms, run in a scratch '
            'directory; half of the runs with a stand-in for the random name source that mostly repeats itself. Oracle: brute-force '
            'substitutions, one per orbit of the own symmetry search, own primitivity and distance filters; files read with own '
            'readers and compared site by site (plain) or as crystals up to rigid motion with multiplicities and primitive cell volumes '
            '(refined). Non-trivial: at least two structures expected.',
            ['input symmetry the same at 0.0006 and 0.06 Angstrom, no distance within 0.002 of a limit',
             'at least one atom remains when vacancies are made; the stepwise program gets a species the structure does not contain'])
