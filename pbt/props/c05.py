"""C05: grid structures - enumeration, geometry and the touching-atoms filter."""
import itertools, math
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G, occ
from engine import Facet, Prop, must

LAT = {'bcc': [[-0.5, -0.5, -0.5], [-0.5, 0.5, 0.5], [0.5, -0.5, 0.5]],
       'fcc': [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
       'scc': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
       'triflat': [[0, 0, 20], [1, 0, 0], [0.5, math.sqrt(3) / 2, 0]]}
MAXC = 400


def sizes(nmax):
    return [s for s in itertools.product(range(1, 17), repeat=3) if np.prod(s) <= nmax]


SMALL = sizes(16)
SMALL_BIG = [s for s in SMALL if np.prod(s) >= 6]
LONG = [s for s in itertools.product((1, 2, 16, 17, 21, 32, 33, 40, 48), repeat=3) if 17 <= np.prod(s) <= 42]


def mat(lat):
    return np.array(LAT[lat] if isinstance(lat, str) else lat, float)


def grid_perms(lat, size):
    d, w, l = size
    m = mat(lat)
    L = m * np.array(size).reshape(3, 1)
    pos = np.array([[i / d, j / w, k / l] for i in range(d) for j in range(w) for k in range(l)])
    return C.perm_set(C.symmetries(L, pos, np.ones(len(pos), int), 1e-3, lat_ops=G.lat_ops(L, 1e-3)))


_pc = {}


def perms(lat, size):
    k = (lat if isinstance(lat, str) else tuple(map(tuple, lat)), tuple(size))
    if k not in _pc:
        if len(_pc) > 300:
            _pc.clear()
        _pc[k] = grid_perms(lat, size)
    return _pc[k]


@st.composite
def ecase(draw, long=False):
    lat = draw(st.sampled_from(sorted(LAT)))
    size = G.skewed(draw, LONG, LONG) if long else G.skewed(draw, SMALL_BIG, SMALL)
    N = int(np.prod(size))
    sea, z = draw(G.distinct_elements(2))
    ok = [k for k in range(0, N + 1) if math.comb(N, k) <= MAXC]
    n = G.skewed(draw, [k for k in ok if 1 < k < N - 1] or ok, ok)
    if long:
        n = draw(st.sampled_from([1, 2, 2] if math.comb(N, 2) < 900 else [1]))
    if draw(st.integers(0, 4)) == 0:          # a lattice of one's own, or a named one slightly strained
        m = np.array(LAT[lat], float)
        k = draw(st.integers(0, 2))
        if k == 0:
            m = m * draw(st.sampled_from([2.0, 3.7]))
        elif k == 1:
            m = np.diag([draw(st.sampled_from([1.0, 1.5, 1.5, 2.25])) for _ in range(3)])
            m[1, 0] = draw(st.sampled_from([0, 0, -.5]))
        m[draw(st.integers(0, 2))] *= draw(st.sampled_from([1, 1.03, .98]))
        lat = m.tolist()
        p = [len(C.perm_set(C.symmetries(m * np.array(size).reshape(3, 1), np.array([[i / size[0], j / size[1], k / size[2]] for i in range(size[0]) for j in range(size[1]) for k in range(size[2])]),
                                         np.ones(N, int), t, lat_ops=G.lat_ops(m * np.array(size).reshape(3, 1), t)))) for t in (1.5e-4, 6e-3)]
        assume(p[0] == p[1])
    return {'lattice': lat, 'size': list(size), 'sea': sea, 'spz': z, 'num': n}


def run_enum(w, case):
    r = w.call('grid_enum', use_dict=isinstance(case['lattice'], str), **case)
    N = int(np.prod(case['size']))
    for a, m in r:
        must(np.shape(a) == tuple(case['size']), 'a grid of shape %s' % (np.shape(a),))
        must(np.allclose(m, mat(case['lattice'])), 'the grid lattice changed')
    got = [np.array(a).reshape(-1).tolist() for a, m in r]
    base = [case['sea']] * N
    allowed = occ.labelings(base, range(N), case['num'], case['spz'])
    p = perms(case['lattice'], case['size'])
    k = occ.judge(p, base, allowed, got, 'grid %s %s with %d of %d' % (case['lattice'], case['size'], case['num'], N))
    return len(allowed) > k >= 2, [case['lattice'] if isinstance(case['lattice'], str) else 'custom', 'sites%d' % N, 'ghost' if 0 in (case['sea'], case['spz']) else 'real']


def run_all(w, case):
    r = w.call('grid_enum', what='all', use_dict=isinstance(case['lattice'], str), **case)
    N = int(np.prod(case['size']))
    got = [tuple(np.array(a).reshape(-1).tolist()) for a, m in r]
    allowed = occ.labelings([case['sea']] * N, range(N), case['num'], case['spz'])
    must(len(set(got)) == len(got), 'the same occupation twice')
    must(set(got) == allowed, '%d occupations of the %d' % (len(got), len(allowed)))
    return len(got) > 2, [case['lattice'] if isinstance(case['lattice'], str) else 'custom']


@st.composite
def ccase(draw):
    lat = draw(st.sampled_from(sorted(LAT)))
    custom = draw(st.integers(0, 3)) == 0
    size = G.skewed(draw, SMALL_BIG, SMALL)
    N = int(np.prod(size))
    z = draw(G.distinct_elements(2))
    mode = draw(st.sampled_from(['sparse', 'sparse', 'sparse', 'pair', 'any']))
    if mode == 'any':
        lab = draw(st.lists(st.sampled_from(z), min_size=N, max_size=N))
    else:
        k = 2 if mode == 'pair' else draw(st.integers(0, 4))
        lab = [z[0]] * N
        for _ in range(k):
            lab[draw(st.integers(0, N - 1))] = z[1]
    m = lat
    if custom:
        m = [[draw(st.sampled_from([1.0, 1.5, 2.0, 2.5])) if i == j else draw(st.sampled_from([0, 0, .5, -.25])) for j in range(3)]
             for i in range(3)]
    return {'lattice': m, 'arr': np.array(lab).reshape(size).tolist(), 'spz': None if custom else z[1]}


def run_cell(w, case):
    r = w.call('grid_cell', **case)
    m = np.array(LAT[case['lattice']] if isinstance(case['lattice'], str) else case['lattice'], float)
    must(np.allclose(r["m"], m), 'the named lattice is %s' % r['m'])
    a = np.array(case['arr'])
    d, w_, l = a.shape
    must(r['arr'] == case['arr'], 'the occupation array changed')
    must(r['idm'] == case['arr'], 'get_id_matrix is not the grid')
    L = m * np.array(a.shape).reshape(3, 1)
    for k in ('lat', 'lat2'):
        must(np.allclose(r[k], L), 'cell lattice %s, expected %s' % (r[k], L.tolist()))
    want = np.array([[i / d, j / w_, k / l] for i in range(d) for j in range(w_) for k in range(l)])
    for kp, kn, lk in (('pos', 'num', 'lat'), ('pos2', 'num2', 'lat2')):
        mm = C.match(want, np.array(r[kp]), L, 1e-6)
        must(mm is not None, 'the sites of the cell are not the grid points')
        must([r[kn][j] for j in mm] == a.reshape(-1).tolist(), 'the occupations do not sit on their grid points')
    g = r['gcell']
    mm = C.match(want, np.array(g['pos']), L, 1e-6)
    must(mm is not None and np.allclose(g['lat'], L) and [g['num'][j] for j in mm] == a.reshape(-1).tolist(),
         'get_gcell is not the grid structure')
    lab = ['custom' if case['spz'] is None else case['lattice']]
    nt = False
    if case['spz'] is not None:
        p = want[a.reshape(-1) == case['spz']]
        dmin = C.min_pair_dist(L, p) if len(p) else math.inf
        must(r['disjunct'] == (dmin > 1.01), 'is_speckle_disjunct is %s, the smallest periodic distance is %s' % (r['disjunct'], dmin))
        lab.append('disjunct' if r['disjunct'] else 'touching')
        nt = len(p) >= 2
    return nt or len(set(a.reshape(-1).tolist())) > 1, lab


@st.composite
def qcase(draw):
    lat = draw(st.sampled_from(sorted(LAT)))
    size = draw(st.sampled_from([s for s in SMALL if 2 <= np.prod(s) <= 12]))
    N = int(np.prod(size))
    z = draw(G.distinct_elements(2))
    a = draw(st.lists(st.sampled_from(z), min_size=N, max_size=N))
    b = draw(st.lists(st.sampled_from(z), min_size=N, max_size=N))
    return {'lattice': lat, 'size': list(size), 'a': a, 'kind': draw(st.sampled_from(['rand', 'img', 'swap'])), 'b': b,
            'k': draw(st.integers(0, 10 ** 6)), 'i': draw(st.integers(0, N - 1)), 'j': draw(st.integers(0, N - 1))}


def run_eq(w, case):
    p = perms(case['lattice'], case['size'])
    a, b = case['a'], list(case['b'])
    if case['kind'] != 'rand':
        b = [a[x] for x in p[case['k'] % len(p)]]
        if case['kind'] == 'swap':
            b[case['i']], b[case['j']] = b[case['j']], b[case['i']]
    want = any([a[x] for x in q] == b for q in p)
    r = w.call('grid_equal', lattice=case['lattice'], a=np.array(a).reshape(case['size']).tolist(),
               b=np.array(b).reshape(case['size']).tolist())
    must(r == want, 'is_stru_equal is %s, under the symmetry of the empty grid it is %s' % (r, want))
    return a != b and sorted(a) == sorted(b), ['equal' if want else 'unequal']


@st.composite
def lcase(draw):
    """grids of more than a thousand sites, a few given operations: a translation along each axis and the inversion"""
    size = draw(st.sampled_from([[11, 10, 10], [4, 16, 17], [1, 33, 32], [9, 9, 9], [2, 2, 300]]))
    N = int(np.prod(size))
    return {'lattice': draw(st.sampled_from(sorted(LAT))), 'size': size, 'z': draw(G.distinct_elements(2)), 'seed': draw(st.integers(0, 10 ** 6)),
            'shift': [draw(st.integers(0, s - 1)) for s in size], 'inv': draw(st.booleans()), 'listed': draw(st.sampled_from([True, True, False])),
            'swap': draw(st.one_of(st.none(), st.tuples(st.integers(0, N - 1), st.integers(0, N - 1)).map(list)))}


def run_large(w, case):
    rs = np.random.RandomState(case['seed'])
    size = case['size']
    a = np.where(rs.rand(*size) < .3, case['z'][0], case['z'][1])
    b = np.roll(a[::-1, ::-1, ::-1] if case['inv'] else a, case['shift'], axis=(0, 1, 2))
    if case['swap']:
        f = b.reshape(-1).copy()
        i, j = case['swap']
        f[i], f[j] = f[j], f[i]
        b = f.reshape(size)
    d = [1 if case['inv'] else 0] * 3
    s = -1 if case['inv'] else 1
    # the operation carrying b back onto a, and others that do not matter
    t = [(-x if s == 1 else x - 1) / float(n) for x, n in zip(case['shift'], size)]
    I = np.eye(3, dtype=int)
    ops = [[I.tolist(), [0, 0, 0]], [(s * I).tolist(), t]] if case['listed'] else [[I.tolist(), [0, 0, 0]], [I.tolist(), [1. / size[0], 0, 0]]]
    want = False
    for W, v in ops:
        idx = np.array(list(np.ndindex(*size)))
        y = np.rint(idx @ np.array(W).T + np.array(v) * size).astype(int) % size
        c = np.empty_like(a)
        c[tuple(y.T)] = b[tuple(idx.T)]
        want = want or bool((c == a).all())
    r = w.call('grid_equal_ops', lattice=case['lattice'], a=a.tolist(), b=b.tolist(), ops=ops)
    must(r == want, 'grids of %s: is_stru_equal is %s, it should be %s' % (size, r, want))
    return True, ['equal' if want else 'unequal']


PROP = Prop('C05', [
    Facet('enumeration', ecase(), run_enum, 300),
    Facet('enumeration_long', ecase(long=True), run_enum, 32),
    Facet('all_occupations', ecase(), run_all, 80),
    Facet('cell_and_filter', ccase(), run_cell, 640),
    Facet('equality', qcase(), run_eq, 400),
    Facet('equality_large', lcase(), run_large, 48),
], 'Named grid lattices (bcc, fcc, scc, triflat; a fifth scaled, orthorhombic, oblique or strained by 2-3%%) x grid shapes up to 16 sites (long thin grids up to 42 sites with 1-2 '
   'substitutions) x species pairs x counts with at most %d combinations. Oracle: orbits of the brute-force occupations '
   'under the independently found symmetries of the empty grid; smallest periodic distance by explicit images; grids of up to 1200 sites are compared under given operations. '
   'Non-trivial: two classes or more and a duplicate to merge; for the filter two or more substituted sites.' % MAXC,
    ['the touching threshold 1.01 (grid units) is part of the filter; the grid lattices have no distance between 1.0 and 1.41/1.22'])
