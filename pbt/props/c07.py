"""C07: superlattices of index n - complete and without symmetry duplicates."""
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G
from engine import Facet, Prop, must


def all_hnf(n):
    out = []
    for a in range(1, n + 1):
        if n % a:
            continue
        for c in range(1, n // a + 1):
            if (n // a) % c:
                continue
            f = n // a // c
            for b in range(c):
                for d in range(f):
                    for e in range(f):
                        out.append(((a, b, d), (0, c, e), (0, 0, f)))
    return out


def all_hnf2(n):
    return [((a, b, 0), (0, n // a, 0), (0, 0, 1)) for a in range(1, n + 1) if n % a == 0 for b in range(n // a)]


def key(H):
    return tuple(map(tuple, C.hnf_rows(np.array(H)).tolist()))


def rotations(c):
    L, p, n = G.arrs(c)
    rs = {}
    for W, t, m in C.symmetries(L, p, n, G.TOL, lat_ops=G.lat_ops(L, G.TOL)):
        rs[tuple(W.reshape(-1).tolist())] = W
    return list(rs.values())


def orbits(hs, rots):
    """map HNF key -> orbit representative, restricted to hs"""
    rep = {}
    S = set(hs)
    for h in hs:
        if h in rep:
            continue
        for W in rots:
            k = key(np.array(h) @ W)
            if k in S:
                rep[k] = h
    return rep


@st.composite
def ccase(draw, dim):
    base = G.dressed(st.one_of(G.proto_cell(4, 1), G.proto_cell(4, 1), G.orbit_cell(5)), recolor=False)
    c = draw(base)
    if draw(st.integers(0, 6)) == 0:
        c = draw(G.nudged(c))
    else:
        assume(G.unambiguous(c))
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6] if dim == 3 else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]))
    return {'cell': c, 'n': n, 'dim': dim}


def run_hnf(w, case):
    n, dim = case['n'], case['dim']
    full = all_hnf(n) if dim == 3 else all_hnf2(n)
    r = w.call('hnfs', dups=True, **case)
    ks = [key(h) for h in r['h']]
    must(len(set(ks)) == len(ks) and set(ks) == set(full), 'the list of all superlattices of index %d has %d entries (%d distinct), there are %d'
         % (n, len(ks), len(set(ks)), len(full)))
    r = w.call('hnfs', **case)
    for h in r['h']:
        must(round(np.linalg.det(np.array(h))) == n, 'superlattice %s has not index %d' % (h, n))
        if dim == 2:
            must([h[0][2], h[1][2], h[2][0], h[2][1], h[2][2]] == [0, 0, 0, 0, 1], '%s is not a superlattice in the plane' % h)
    rots = rotations(r['cell'])
    rep = orbits(full, rots)
    ks = [key(h) for h in r['h']]
    must(all(k in rep for k in ks), 'a superlattice that does not belong')
    got = [rep[k] for k in ks]
    must(len(set(got)) == len(got), '%d superlattices in %d classes: two are related by a symmetry of the unit cell (point group order %d)'
         % (len(got), len(set(got)), len(rots)))
    must(set(got) == set(rep.values()), '%d of the %d inequivalent superlattices of index %d' % (len(got), len(set(rep.values())), n))
    return len(full) > len(got) > 1, ['n%d' % n, 'pg%d' % len(rots)]


@st.composite
def bcase(draw):
    """larger indices: all superlattices, and the inequivalent ones where that does not take long"""
    d = draw(ccase(draw(st.sampled_from([2, 2, 3]))))
    if d['dim'] == 2:
        d['n'] = draw(st.one_of(st.integers(11, 20), st.integers(21, 36)))
    else:
        d['n'] = draw(st.integers(7, 16))
    return d


def run_big(w, case):
    n, dim = case['n'], case['dim']
    if n <= (36 if dim == 2 else 7):
        return run_hnf(w, case)
    full = all_hnf(n) if dim == 3 else all_hnf2(n)
    ks = [key(h) for h in w.call('hnfs', dups=True, **case)['h']]
    must(len(set(ks)) == len(ks) and set(ks) == set(full), 'the list of all superlattices of index %d has %d entries (%d distinct), there are %d'
         % (n, len(ks), len(set(ks)), len(full)))
    return True, ['n%d' % n]


@st.composite
def ecase(draw):
    c = draw(ccase(3))['cell']
    pairs = []
    for _ in range(draw(st.integers(1, 5))):
        n = draw(st.one_of(st.integers(1, 12), st.integers(13, 72)))
        a = draw(G.hnf(n, n))
        kind = draw(st.sampled_from(['same_n', 'same_n', 'img', 'img', 'other_n']))
        b = draw(G.hnf(n, n if kind != 'other_n' else draw(st.integers(1, 12))))
        pairs.append([a, kind, b, draw(st.integers(0, 100)), draw(st.sampled_from(G.UNI))])
    return {'cell': c, 'pairs': pairs}


def run_eq(w, case):
    c0 = w.call('sym', cell=case['cell'])['cell']
    rots = rotations(c0)
    pairs = []
    for a, kind, b, k, U in case['pairs']:
        if kind == 'img':
            b = C.hnf_rows(np.array(a) @ rots[k % len(rots)]).tolist()
        pairs.append([a, b])
    r = w.call('hnf_eq', cell=case['cell'], pairs=pairs)
    nt = False
    for (a, b), eq in zip(pairs, r['eq']):
        ka, kb = key(a), key(b)
        if abs(round(np.linalg.det(np.array(a)))) != abs(round(np.linalg.det(np.array(b)))):
            continue      # only superlattices of one index are ever compared
        want = any(key(np.array(ka) @ W) == kb for W in rots)
        must(eq == want, 'superlattices %s and %s compare %s, under the point group (order %d) %s' % (a, b, eq, len(rots), want))
        nt = nt or ka != kb
    return nt, ['pg%d' % len(rots)]


PROP = Prop('C07', [
    Facet('three_d', ccase(3), run_hnf, 184, timeout=200),
    Facet('two_d', ccase(2), run_hnf, 260, timeout=120),
    Facet('large', bcase(), run_big, 40, 600, timeout=300),
    Facet('comparison', ecase(), run_eq, 500),
], 'Unit cells: prototypes and orbit crystals (1-5 sites, dressed as in C04); index 1-6 in 3D, 1-12 in the plane (large: 7-16, 11-36); pairwise '
   'comparison up to index 72. Oracle: all Hermite normal forms and their orbits under the rotation parts of the '
   'independently found space group, with integer row reduction. Non-trivial: more than one class and at least one '
   'duplicate removed (comparison: two different superlattices of one index).',
    ['unit cells whose symmetry is the same at 0.00015 and 0.06 Angstrom'])
