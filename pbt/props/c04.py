"""C04: symmetry permutations are exactly the crystal's symmetries; equivalence follows from them."""
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G, occ
from engine import Facet, Prop, must


def run_perm(w, case):
    r = w.call('sym', cell=case)
    c = r['cell']
    n = len(c['num'])
    for p in r['perms']:
        must(sorted(p) == list(range(n)), 'not a permutation of the sites: %s' % p)
        must([c['num'][i] for i in p] == c['num'], 'permutation %s maps %s to another occupation' % (p, c['num']))
    want = set(occ.perms_of(c))
    got = {tuple(p) for p in r['perms']}
    must(got <= want, 'site permutation %s is not a symmetry of the crystal (%d returned, %d exist)'
         % (sorted(got - want)[:1], len(got), len(want)))
    must(got == want, 'only %d of the %d symmetry permutations were found' % (len(got), len(want)))
    return len(want) > 1, ['group%d' % len(want), 'atoms%d' % n]


@st.composite
def equiv_case(draw):
    c = draw(G.crystals_ok(10, recolor=False))
    n = len(c['num'])
    z = draw(G.distinct_elements(2))
    pairs = []
    for _ in range(draw(st.integers(1, 6))):
        a = draw(st.lists(st.sampled_from([None, 0, 1]), min_size=n, max_size=n))
        # what the other one is: an independent draw, an image under some symmetry, or an image with two sites swapped
        kind = draw(st.sampled_from(['rand', 'img', 'img', 'swap']))
        pairs.append([a, kind, draw(st.lists(st.sampled_from([None, 0, 1]), min_size=n, max_size=n)),
                      draw(st.integers(0, 10 ** 6)), draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))])
    return {'cell': c, 'z': z, 'pairs': pairs}


def run_equiv(w, case):
    c0 = w.call('sym', cell=case['cell'])['cell']
    perms = occ.perms_of(c0)
    n0, z = c0['num'], case['z']

    def col(a):
        return [n0[i] if a[i] is None else z[a[i]] for i in range(len(n0))]
    pairs = []
    for a, kind, b, k, i, j in case['pairs']:
        x = col(a)
        if kind == 'rand':
            y = col(b)
        else:
            p = perms[k % len(perms)]
            y = [x[q] for q in p]
            if kind == 'swap':
                y[i], y[j] = y[j], y[i]
        pairs.append([x, y])
    r = w.call('equiv', cell=case['cell'], pairs=pairs)
    must(r['after'] == c0, 'deciding equivalence changed the cell')
    nt = False
    pos = neg = 0
    for (x, y), (x1, y1, eq) in zip(pairs, r['pairs']):
        must(x1 == x and y1 == y, 'the occupations of the cells changed')
        want = any([x[q] for q in p] == list(y) for p in perms)
        must(eq == want, 'is_equivalent(%s, %s) is %s, under the %d symmetries of the crystal it is %s'
             % (x, y, eq, len(perms), want))
        if want and x != y:
            pos += 1
        if not want and sorted(x) == sorted(y):
            neg += 1
    return pos + neg > 0, ['equivalent'] * pos + ['inequivalent_same_comp'] * neg


def run_ops(w, case):
    r = w.call('symops', cell=case)
    c = r['cell']
    L, p, n = G.arrs(c)
    syms = C.symmetries(L, p, n, G.TOL, lat_ops=G.lat_ops(L, G.TOL))
    R, T = np.array(r['rot']), np.array(r['trans'])
    must(len(R) == len(T) == len(syms), '%d operations listed, the crystal has %d' % (len(R), len(syms)))
    want = [(s[0], s[1]) for s in syms]
    seen = set()
    for rot, t in zip(R, T):
        q = p @ rot.T + t
        m = C.match(p, q, L, 1e-2)
        must(m is not None and (n[m] == n).all(), 'operation %s %s does not map the crystal onto itself' % (rot.tolist(), t.tolist()))
        seen.add((tuple(rot.reshape(-1).tolist()), tuple(np.rint((t % 1.0) * 1000).astype(int) % 1000)))
    must({s[0] for s in seen} == {tuple(W.T.reshape(-1).tolist()) for W, _ in want}, 'the rotation parts differ from those of the crystal')
    # symmetry related sites carry one letter
    wy = r['wyckoffs']
    for s in syms:
        for i, j in enumerate(s[2]):
            must(wy[i] == wy[j], 'sites %d and %d are related by symmetry but have Wyckoff letters %s, %s' % (i, j, wy[i], wy[j]))
    return len(syms) > 1, ['ops%d' % len(syms)]


@st.composite
def tol_case(draw):
    """a crystal with a few sites moved by a distance clearly above or clearly below the symmetry tolerance"""
    c = draw(G.crystals_ok(10, min_atoms=2))
    L, p, n = G.arrs(c)
    sp, amp = draw(st.sampled_from([(None, 2e-4), (None, 0.008), (None, 0.015), (None, 0.03), (1e-5, 1e-3), (1e-4, 2e-3), (0.02, 2e-3), (0.02, 0.2)]))
    k = draw(st.lists(st.integers(0, len(n) - 1), min_size=1, max_size=3, unique=True))
    d = np.zeros((len(n), 3))
    for i in k:
        v = np.array([draw(st.integers(-5, 5)) for _ in range(3)], float)
        d[i] = v / (np.linalg.norm(v) or 1) * amp
    c = G.cell(L, p + d @ np.linalg.inv(L), n)
    s = 1e-3 if sp is None else sp
    lo, hi = (s * .15, s * 6) if amp > s else (s * .5, s * 6)
    a = lambda t: len(C.symmetries(*G.arrs(c), t, lat_ops=G.lat_ops(np.array(c['lat']), t)))
    assume(a(lo) == a(hi))
    return {'cell': c, 'symprec': sp, 'amp': amp, 'tol': s * 2}


def run_tol(w, case):
    r = w.call('sym', cell=case['cell'], symprec=case['symprec'])
    c = r['cell']
    L, p, n = G.arrs(c)
    want = set(C.perm_set(C.symmetries(L, p, n, case['tol'], lat_ops=G.lat_ops(L, case['tol']))))
    got = {tuple(x) for x in r['perms']}
    must(got == want, 'a crystal with sites moved by %s has %d symmetry permutations at tolerance %s, %d were found (%d wrong)'
         % (case['amp'], len(want), case['symprec'] or 1e-3, len(got), len(got - want)))
    full = C.symmetries(L, p, n, case['amp'] * 4, lat_ops=G.lat_ops(L, G.TOL))
    return len(full) > len(want) or (len(want) > 1 and case['amp'] < case['tol']), ['%s/%s' % (case['amp'], case['symprec'])]


PROP = Prop('C04', [
    Facet('permutations', G.crystals_ok(16), run_perm, 2400),
    Facet('permutations_large', G.crystals_ok(96, min_atoms=30, nudge=False).filter(lambda c: len(c['num']) > 16), run_perm, 160),
    Facet('operations', G.crystals_ok(12), run_ops, 800),
    Facet('equivalence', equiv_case(), run_equiv, 1200),
    Facet('tolerance', tol_case(), run_tol, 1000),
], 'Crystals: 29 prototypes x HNF supercells, or orbits of a random subgroup of a lattice point group; then basis '
   'change, origin shift (incl. values on rounding boundaries), site reordering, integer wraps, rounding to 5-6 '
   'digits, recolouring; large: up to 96 sites. Non-trivial: symmetry group larger than the identity (equivalence: an equivalent but '
   'different pair, or an inequivalent pair of equal composition).',
    ['crystals whose symmetry is the same at 0.002 and 0.06 Angstrom (no near-symmetry at the tolerance)',
     'spglib finds the rotations/translations; the oracle is an independent search over lattice isometries'])
