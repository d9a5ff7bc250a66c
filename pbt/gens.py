"""Hypothesis strategies producing JSON-able crystal structures and friends."""
import itertools, math
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C

ZS = [0] + list(range(1, 57)) + list(range(72, 89))
SYMBOLS = ("G H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr "
           "Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn "
           "Fr Ra").split()
Z2S = dict(zip(ZS, SYMBOLS))
S2Z = {v: k for k, v in Z2S.items()}
REAL_ZS = [z for z in ZS if z]
assert len(ZS) == len(SYMBOLS)

s3 = math.sqrt(3)
FCC = [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]
BCC = [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]
SC = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def hexl(c):
    return [[1, 0, 0], [-.5, s3 / 2, 0], [0, 0, c]]


# name -> (lattice, positions, site classes)
PROTO = {
    'sc': (SC, [[0, 0, 0]], [0]),
    'bcc': (BCC, [[0, 0, 0]], [0]),
    'fcc': (FCC, [[0, 0, 0]], [0]),
    'bcc_conv': (SC, [[0, 0, 0], [.5, .5, .5]], [0, 0]),
    'fcc_conv': (SC, [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]], [0] * 4),
    'diamond': (FCC, [[0, 0, 0], [.25, .25, .25]], [0, 0]),
    'zincblende': (FCC, [[0, 0, 0], [.25, .25, .25]], [0, 1]),
    'rocksalt': (FCC, [[0, 0, 0], [.5, .5, .5]], [0, 1]),
    'cscl': (SC, [[0, 0, 0], [.5, .5, .5]], [0, 1]),
    'fluorite': (FCC, [[0, 0, 0], [.25, .25, .25], [.75, .75, .75]], [0, 1, 1]),
    'perovskite': (SC, [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]], [0, 1, 2, 2, 2]),
    'heusler': (FCC, [[0, 0, 0], [.25, .25, .25], [.5, .5, .5]], [0, 1, 2]),
    'hcp': (hexl(1.6), [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]], [0, 0]),
    'wurtzite': (hexl(1.6), [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, .5], [1 / 3, 2 / 3, .375], [2 / 3, 1 / 3, .875]],
                 [0, 0, 1, 1]),
    'hex': (hexl(1.3), [[0, 0, 0]], [0]),
    'triflat': ([[0, 0, 3.1], [1, 0, 0], [.5, s3 / 2, 0]], [[0, 0, 0]], [0]),
    'graphene': (hexl(2.2), [[1 / 3, 2 / 3, .5], [2 / 3, 1 / 3, .5]], [0, 0]),
    'bn': (hexl(2.2), [[1 / 3, 2 / 3, .5], [2 / 3, 1 / 3, .5]], [0, 1]),
    'cdi2': (hexl(1.6), [[0, 0, 0], [1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]], [0, 1, 1]),
    'rutile': ([[1, 0, 0], [0, 1, 0], [0, 0, .64]],
               [[0, 0, 0], [.5, .5, .5], [.3, .3, 0], [.7, .7, 0], [.8, .2, .5], [.2, .8, .5]], [0, 0, 1, 1, 1, 1]),
    'tetra': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.37]], [[0, 0, 0]], [0]),
    'l10': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.37]], [[0, 0, 0], [.5, .5, .5]], [0, 1]),
    'ortho': ([[1, 0, 0], [0, 1.27, 0], [0, 0, 1.61]], [[0, 0, 0]], [0]),
    'mono': ([[1, 0, 0], [0, 1.31, 0], [-.3, 0, 1.55]], [[0, 0, 0]], [0]),
    'tric': ([[1, 0, 0], [.21, 1.15, 0], [.33, .18, 1.42]], [[0, 0, 0]], [0]),
    'rhombo': ([[1, .2, .2], [.2, 1, .2], [.2, .2, 1]], [[0, 0, 0]], [0]),
    'chiral': ([[1, 0, 0], [0, 1, 0], [0, 0, 1.37]],
               [[.21, .0, .0], [.0, .21, .25], [-.21, .0, .5], [.0, -.21, .75]], [0] * 4),
    'polar_ortho': ([[1, 0, 0], [0, 1.27, 0], [0, 0, 1.61]],
                    [[0, 0, 0], [.5, .5, .18], [.5, 0, .5]], [0, 1, 2]),
}


def cell(L, p, n):
    return {'lat': np.array(L, float).tolist(), 'pos': np.array(p, float).tolist(), 'num': [int(x) for x in n]}


def arrs(c):
    return np.array(c['lat'], float), np.array(c['pos'], float).reshape(-1, 3), np.array(c['num'], int)


def elements(ghost=True):
    if ghost:
        return st.one_of(st.sampled_from([0, 5, 6, 16, 22, 29, 30, 31, 50]), st.sampled_from(ZS))
    return st.one_of(st.sampled_from([5, 6, 16, 22, 29, 30, 31, 50]), st.sampled_from(REAL_ZS))


# atomic mass, or alphabet, against atomic number; one symbol the beginning of another; ends of the table
FAMILIES = [[18, 19, 27, 28, 52, 53], [6, 20, 17, 24, 27, 29], [16, 14, 21, 34, 38, 50, 51], [1, 2, 72, 80, 49, 53], [7, 10, 11, 28, 41], [1, 56, 72, 88, 87, 2]]
FAMILIES = [sorted(set(f)) for f in FAMILIES]
# numbers that cannot be told apart once their digits are joined (1 11 | 11 1), or by their last byte, digit, ...
PAIRS = [[1, 11], [2, 22], [5, 55], [3, 33], [4, 44], [8, 88], [77, 7], [6, 16], [0, 10], [0, 1], [16, 32], [8, 72]]


def distinct_elements(n, ghost=True):
    a = st.lists(elements(ghost), min_size=n, max_size=n, unique=True)
    if n > 4:
        return a
    if n == 2:
        c = st.sampled_from([p for p in PAIRS if ghost or 0 not in p]).flatmap(st.permutations)
        b0 = st.sampled_from(FAMILIES).flatmap(lambda f: st.lists(st.sampled_from(f), min_size=n, max_size=n, unique=True))
        return st.one_of(a, a, a, b0, c)
    b = st.sampled_from(FAMILIES).flatmap(lambda f: st.lists(st.sampled_from(f), min_size=n, max_size=n, unique=True))
    return st.one_of(a, a, a, b)


@st.composite
def hnf(draw, kmax, k=None):
    if k is None:
        k = draw(st.integers(1, kmax))
    a = draw(st.sampled_from([d for d in range(1, k + 1) if k % d == 0]))
    c = draw(st.sampled_from([d for d in range(1, k // a + 1) if (k // a) % d == 0]))
    f = k // a // c
    b = draw(st.integers(0, c - 1))
    d = draw(st.integers(0, f - 1))
    e = draw(st.integers(0, f - 1))
    return [[a, b, d], [0, c, e], [0, 0, f]]


def expand(L, p, n, H):
    """Oracle supercell: rows of H are the new basis (integer, det > 0)."""
    H = np.array(H, int)
    L = np.array(L, float)
    p = np.array(p, float).reshape(-1, 3)
    n = np.array(n)
    det = int(round(np.linalg.det(H)))
    assert det > 0
    lo = np.minimum(H, 0).sum(0)
    hi = np.maximum(H, 0).sum(0)
    adj = np.rint(np.linalg.inv(H) * det).astype(int)
    pts = [v for v in itertools.product(*[range(l, h + 1) for l, h in zip(lo, hi)])
           if all(0 <= x < det for x in (np.array(v) @ adj))]
    assert len(pts) == det
    Hi = np.linalg.inv(H)
    pos, num = [], []
    for x, z in zip(p, n):
        for v in pts:
            pos.append((x + np.array(v)) @ Hi)
            num.append(int(z))
    return H @ L, np.array(pos), np.array(num)


UNI = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[1, 1, 0], [0, 1, 0], [0, 0, 1]],
       [[1, 0, 0], [0, 1, -1], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, 1]], [[-1, 0, 0], [0, -1, 0], [1, 0, 1]],
       [[1, 0, 0], [1, 1, 0], [1, 0, 1]], [[1, 2, 0], [0, 1, 1], [0, 0, 1]]]

LATTS = {
    'cubic': lambda a, b, c: [[a, 0, 0], [0, a, 0], [0, 0, a]],
    'tetra': lambda a, b, c: [[a, 0, 0], [0, a, 0], [0, 0, c]],
    'ortho': lambda a, b, c: [[a, 0, 0], [0, b, 0], [0, 0, c]],
    'hex': lambda a, b, c: [[a, 0, 0], [-a / 2, a * s3 / 2, 0], [0, 0, c]],
    'mono': lambda a, b, c: [[a, 0, 0], [0, b, 0], [-c * .25, 0, c]],
    'tric': lambda a, b, c: [[a, 0, 0], [a * .2, b, 0], [a * .15, b * .3, c]],
    'fcc': lambda a, b, c: [[0, a, a], [a, 0, a], [a, a, 0]],
    'bcc': lambda a, b, c: [[-a, a, a], [a, -a, a], [a, a, -a]],
}

_lat_cache = {}


def lat_ops(L, tol):
    k = (tuple(np.round(np.array(L).reshape(-1), 9)), tol)
    if k not in _lat_cache:
        if len(_lat_cache) > 500:
            _lat_cache.clear()
        _lat_cache[k] = C.lattice_isometries(np.array(L, float), tol)
    return _lat_cache[k]


TOL_TIGHT, TOL, TOL_WIDE = 1.5e-4, 2e-3, 6e-2


def group(c, tol=TOL):
    L, p, n = arrs(c)
    return C.symmetries(L, p, n, tol, lat_ops=lat_ops(L, tol))


def unambiguous(c, wide_tol=TOL_WIDE):
    L, p, n = arrs(c)
    a = lat_ops(L, TOL_TIGHT)
    wide = lat_ops(L, wide_tol)
    if len(a) != len(wide):
        return False
    return len(C.symmetries(L, p, n, TOL_TIGHT, lat_ops=a)) == len(C.symmetries(L, p, n, wide_tol, lat_ops=wide))


lengths = st.sampled_from([3.0, 3.5, 4.0, 4.25, 5.0, 5.43, 6.2, 7.0])


def coord():
    return st.one_of(st.sampled_from([0, .25, .5, .75, 1 / 3, 2 / 3, .125, .375]),
                     st.integers(0, 23).map(lambda k: k / 24),
                     st.integers(0, 15).map(lambda k: k / 16),
                     st.integers(0, 1999).map(lambda k: k * 0.0005),
                     st.integers(0, 9999).map(lambda k: k / 10000))


def closure(gens):
    S = {tuple(np.eye(3, dtype=int).reshape(-1))}
    frontier = list(S)
    G = [np.array(g) for g in gens]
    while frontier:
        new = []
        for x in frontier:
            X = np.array(x).reshape(3, 3)
            for g in G:
                y = tuple((X @ g).reshape(-1))
                if y not in S:
                    S.add(y)
                    new.append(y)
        frontier = new
        if len(S) > 48:
            break
    return [np.array(s).reshape(3, 3) for s in sorted(S)]


def far_enough(L, pos, dmin=0.7):
    return C.min_pair_dist(L, pos) > dmin


FULL = [(np.array(m) * k).tolist() for k in (1, 2, 3, 4) for m in
        ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]])]
FULL += [[[2, 0, 0], [0, 2, 0], [0, 0, 1]], [[3, 0, 0], [0, 3, 0], [0, 0, 1]], [[3, 0, 0], [0, 3, 0], [0, 0, 2]], [[4, 0, 0], [0, 4, 0], [0, 0, 1]], [[2, 0, 0], [0, 2, 0], [0, 0, 3]],
         [[2, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]]]


@st.composite
def proto_cell(draw, max_atoms, max_index=None, ghost=True, names=None, min_atoms=1):
    name = draw(st.sampled_from(names or sorted(PROTO)))
    L0, p0, cls = PROTO[name]
    a = draw(lengths)
    spec = draw(distinct_elements(max(cls) + 1, ghost))
    L = np.array(L0, float) * a
    p = np.array(p0, float)
    n = np.array([spec[c] for c in cls])
    kmax = max(1, max_atoms // len(n))
    if max_index:
        kmax = min(kmax, max_index)
    kmin = 1
    if kmax > 1 and draw(st.integers(0, 7)) > 0:
        # mostly real supercells: a one-site cell has no permutations
        kmin = min(kmax, max(2, -(-min_atoms // len(n))))
    k = draw(st.sampled_from(list(range(kmin, kmax + 1))))
    H = draw(hnf(kmax, k))
    full = [m for m in FULL if kmin <= round(np.linalg.det(m)) <= kmax]
    if full and draw(st.integers(0, 3)) == 0:      # supercells that keep all rotations
        H = draw(st.sampled_from(full))
    L, p, n = expand(L, p, n, H)
    return L, p, n


@st.composite
def orbit_cell(draw, max_atoms, ghost=True):
    sysname = draw(st.sampled_from(sorted(LATTS)))
    a, b, c = draw(lengths), draw(lengths), draw(lengths)
    L = np.array(LATTS[sysname](a, b + .37, c + .71), float)
    ops = lat_ops(L, TOL)
    ng = draw(st.sampled_from([0, 1, 1, 2, 2, 2, 3]))
    gens = [ops[draw(st.integers(0, len(ops) - 1))] for _ in range(ng)]
    G = closure(gens)
    nseed = draw(st.integers(1, 3))
    pos, num = [], []
    spec = draw(distinct_elements(nseed, ghost))
    for i in range(nseed):
        x = np.array([draw(coord()) for _ in range(3)])
        orb = []
        for W in G:
            y = (x @ W) % 1.0
            if all(np.linalg.norm(((y - z) - np.rint(y - z)) @ L) > 1e-4 for z in orb):
                orb.append(y)
        if len(pos) + len(orb) <= max_atoms and far_enough(L, pos + orb):
            pos += orb
            num += [spec[i]] * len(orb)
    if not pos:
        pos, num = [np.zeros(3)], [spec[0]]
    return L, np.array(pos), np.array(num)


@st.composite
def dressed(draw, base, recolor=True, shift=True, basis=True, wrapmix=True, digits=True, ghost=True, order=True):
    """Apply representation changes that leave the crystal alone (basis, origin, order, integer wraps, rounding),
    and optionally recolour sites."""
    L, p, n = draw(base)
    L, p, n = np.array(L), np.array(p), np.array(n)
    if basis:
        U = np.array(draw(st.sampled_from(UNI)))
        if U.tolist() != np.eye(3).tolist():
            L, p = U @ L, p @ np.linalg.inv(U)
    if recolor and len(n) > 1 and draw(st.integers(0, 4)) == 4:
        z = draw(elements(ghost))
        mask = draw(st.lists(st.booleans(), min_size=len(n), max_size=len(n)))
        n = np.where(mask, z, n)
    if shift:
        k = draw(st.integers(0, 3))
        if k == 1:
            p = p + np.array([draw(st.integers(0, 15)) / 16 for _ in range(3)])
        elif k == 2:
            p = p + np.array([draw(st.integers(0, 9999)) / 10000 for _ in range(3)])
    p = p - np.floor(p + 1e-9)
    if wrapmix and draw(st.integers(0, 3)) == 0:
        w = draw(st.lists(st.integers(-1, 1), min_size=3 * len(n), max_size=3 * len(n)))
        p = p + np.array(w).reshape(-1, 3)
    if order and len(n) > 1 and draw(st.booleans()):
        perm = draw(st.permutations(list(range(len(n)))))
        p, n = p[perm], n[perm]
    if digits:
        d = draw(st.sampled_from([None, None, 6, 5]))
        if d is not None:
            p = np.round(p, d)
    return cell(L, p, n)


def crystals(max_atoms=12, ghost=True, min_atoms=1, **kw):
    p = proto_cell(max_atoms, ghost=ghost, min_atoms=min_atoms)
    return dressed(st.one_of(p, p, orbit_cell(max_atoms, ghost=ghost)), ghost=ghost, **kw)


@st.composite
def nudged(draw, c):
    """nearly symmetric: a site or a lattice vector off by far more than the tolerance (0.001) but by little"""
    L, p, n = arrs(c)
    if draw(st.booleans()) and len(n) > 1:
        d = np.zeros((len(n), 3))
        for i in draw(st.lists(st.integers(0, len(n) - 1), min_size=1, max_size=3, unique=True)):
            v = np.array([draw(st.integers(-5, 5)) for _ in range(3)], float)
            d[i] = v / (np.linalg.norm(v) or 1) * draw(st.sampled_from([0.015, 0.03]))
        p = p + d @ np.linalg.inv(L)
    else:
        i = draw(st.integers(0, 2))
        L[i] = L[i] * draw(st.sampled_from([1.005, 0.99]))
    c = cell(L, p, n)
    assume(unambiguous(c, 1e-2))
    return c


@st.composite
def crystals_ok(draw, max_atoms=12, ghost=True, min_atoms=1, nudge=True, **kw):
    c = draw(crystals(max_atoms, ghost, min_atoms, **kw))
    if nudge and draw(st.integers(0, 9)) == 0:
        c = draw(nudged(c))
    else:
        assume(unambiguous(c))
    return c


@st.composite
def new_species(draw, present):
    """a species to substitute: mostly absent from the structure, sometimes present, sometimes the vacancy"""
    k = draw(st.sampled_from('aaaaapp0'))
    if k == 'p':
        return draw(st.sampled_from(present))
    if k == '0':
        return 0
    z = draw(elements())
    if draw(st.integers(0, 5)) == 0:
        q = draw(st.sampled_from(present))
        z = draw(st.sampled_from([y for p in PAIRS if q in p for y in p if y != q] or [z]))
    if z in present:
        z = [x for x in (30, 16, 50, 22, 5, 6, 79, 47, 13, 14, 15, 17, 18, 19, 20) if x not in present][0]
    return z


def skewed(draw, common, rare):
    """one of `common` most of the time"""
    return draw(st.sampled_from(common if draw(st.sampled_from([0, 0, 0, 0, 1])) == 0 else rare))
