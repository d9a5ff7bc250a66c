"""C14: the minimum-distance restriction accepts exactly the structures that keep the distance."""
import math
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G
from engine import Facet, Prop, must

SKEW = [[[1, 0, 0], [2, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [3, -2, 1]], [[1, 3, 0], [0, 1, 0], [0, 0, 1]],
        [[1, 0, 0], [-4, 1, 0], [1, 2, 1]], [[1, 2, 3], [0, 1, 2], [0, 0, 1]]]


@st.composite
def geo_cell(draw, max_atoms=10):
    """crystals in reduced, skewed and very skewed cells"""
    c = draw(G.crystals(max_atoms))
    k = draw(st.integers(0, 3))
    if k == 0:
        U = np.array(draw(st.sampled_from(SKEW)))
        L, p, n = G.arrs(c)
        c = G.cell(U @ L, p @ np.linalg.inv(U), n)
    elif k == 1:                         # no symmetry at all
        L, p, n = G.arrs(c)
        d = np.array(draw(st.lists(st.integers(-40, 40), min_size=3 * len(n), max_size=3 * len(n)))).reshape(-1, 3) / 1000.
        c = G.cell(L, p + d, n)
    return c


@st.composite
def case(draw):
    c = draw(geo_cell(10 if draw(st.integers(0, 19)) else 32))
    if draw(st.integers(0, 9)) == 0:
        c['lat'] = (np.array(c['lat']) * draw(st.sampled_from([4.0, 15.0]))).tolist()
    present = sorted(set(c['num']))
    items = []
    for _ in range(draw(st.integers(1, 5))):
        z = draw(st.sampled_from(present * 3 + [77]))
        how = draw(st.sampled_from(['rel', 'rel', 'rel', 'other', 'pair', 'abs']))
        if how == 'abs':
            v = draw(st.sampled_from([0.5, 1.0, 1.5, 2.2, 2.5, 3.0, 4.0, 6.0, 9.0]))
        elif how == 'rel':
            v = draw(st.sampled_from([0.3, 0.7, 0.9, 0.97, 0.999, 1.001, 1.03, 1.1, 1.5, 2.5]))
        else:
            v = draw(st.sampled_from([0.9, 0.98, 1.02, 1.1]))
        items.append([z, how, v, draw(st.integers(0, 50))])
    return {'cell': c, 'items': items}


def run(w, case):
    c = case['cell']
    L, p, n = G.arrs(c)
    md = {z: C.min_pair_dist(L, p[n == z]) for z in set(n.tolist())}
    alld = C.min_pair_dist(L, p)
    items, want = [], []
    lab, nt = [], False
    for z, how, v, k in case['items']:
        own = md.get(z, math.inf)
        ref = own if math.isfinite(own) else alld
        if how == 'other':                # the distance to atoms of other elements must not matter
            o = [x for x in n.tolist() if x != z]
            ref = C.min_pair_dist(L, p[n == z], p[n != z]) if o and (n == z).any() else ref
        elif how == 'pair':               # some basis vector of the cell
            ref = float(np.linalg.norm(L[k % 3]))
        d = v if how == 'abs' else v * ref
        if d > 30 or abs(d - own) < 1e-5:
            continue
        items.append([z, float(d)])
        want.append(own > d)
        lab.append('%s_%s' % (how, 'absent' if not math.isfinite(own) else ('kept' if own > d else 'broken')))
        nt = nt or (math.isfinite(own) and 0.8 < d / own < 1.25)
    if not items:
        return False, ['empty']
    r = w.call('mindist', cell=c, items=items)
    must(r['after'] == r['cell'], 'the structure was changed')
    for (z, d), a, b in zip(items, r['ok'], want):
        must(a == b, 'restriction (Z=%d, %.6f) says %s; the nearest Z=%d atoms are %s apart' % (z, d, a, z, md.get(z)))
    return nt, lab


@st.composite
def rcase(draw):
    """the same crystal described differently"""
    c = draw(geo_cell(8))
    U = draw(st.sampled_from(SKEW + G.UNI))
    z = draw(st.sampled_from(sorted(set(c['num']))))
    return {'cell': c, 'U': U, 'H': draw(G.hnf(4)), 'shift': [draw(st.integers(0, 99)) / 100. for _ in range(3)], 'z': z,
            'f': draw(st.sampled_from([0.9, 0.99, 1.01, 1.2]))}


def run_repr(w, case):
    L, p, n = G.arrs(case['cell'])
    d = case['f'] * C.min_pair_dist(L, p[n == case['z']])
    a = w.call('mindist', cell=case['cell'], items=[[case['z'], d]])['ok'][0]
    U = np.array(case['U'])
    b = w.call('mindist', cell=G.cell(U @ L, p @ np.linalg.inv(U) + np.array(case['shift']), n), items=[[case['z'], d]])['ok'][0]
    e = w.call('mindist', cell=G.cell(*G.expand(L, p, n, case['H'])), items=[[case['z'], d]])['ok'][0]
    must(a == b == e, 'distance %.5f: %s, in another basis %s, in a supercell %s' % (d, a, b, e))
    return True, ['kept' if a else 'broken']


@st.composite
def relatives(draw, c, k):
    """c and k cells that share something with it or with each other, in any order"""
    out = [c]
    for _ in range(k):
        b = draw(st.sampled_from(out))
        L, p, n = G.arrs(b)
        how = draw(st.sampled_from(['axis', 'axis', 'scale', 'move', 'recolor', 'same', 'order', 'basis']))
        if how == 'axis':
            L = L.copy()
            L[draw(st.integers(0, 2))] *= draw(st.sampled_from([0.6, 0.8, 1.25, 1.9]))
        elif how == 'scale':
            L = L * draw(st.sampled_from([0.5, 0.9, 1.2, 2.0]))
        elif how == 'move':
            p = p.copy()
            p[draw(st.integers(0, len(n) - 1))] += np.array([draw(st.integers(-3, 3)) / 20. for _ in range(3)])
        elif how == 'recolor':
            n = n.copy()
            n[draw(st.integers(0, len(n) - 1))] = draw(st.sampled_from(sorted(set(n.tolist())) + [30, 31]))
        elif how == 'order':
            n = np.array(draw(st.permutations(n.tolist())))
        elif how == 'basis':
            U = np.array(draw(st.sampled_from(G.UNI)))
            L, p = U @ L, p @ np.linalg.inv(U)
        out.append(G.cell(L, p, n))
    return draw(st.permutations(out))


@st.composite
def ucase(draw):
    c = draw(geo_cell(6))
    L, p, n = G.arrs(c)
    z = draw(st.sampled_from(sorted(set(c['num']))))
    d = float(C.min_pair_dist(L, p[n == z])) * draw(st.sampled_from([0.7, 0.95, 1.05, 1.4]))
    return {'args': [z, d], 'cells': list(draw(relatives(c, draw(st.integers(1, 6)))))}


def run_reused(w, case):
    z, d = case['args']
    want = []
    for c in case['cells']:
        L, p, n = G.arrs(c)
        m = C.min_pair_dist(L, p[n == z]) if (n == z).any() else math.inf
        if abs(m - d) < 1e-5:
            return False, ['tie']
        want.append(bool(m > d))
    r = w.call('reuse', kind='mindist', args=case['args'], cells=case['cells'])
    must(r['one'] == want and r['new'] == want, 'one restriction (Z=%d, %.6f) asked about %d cells: %s, new ones %s, expected %s' % (z, d, len(want), r['one'], r['new'], want))
    return len(set(want)) > 1, ['cells%d' % len(want)]


PROP = Prop('C14', [Facet('threshold', case(), run, 1500), Facet('representation', rcase(), run_repr, 400),
                    Facet('reused', ucase(), run_reused, 400)],
            'Crystals (1-10 sites, prototypes, orbit crystals, randomly displaced; reduced, skewed and very skewed cells, unwrapped '
            'positions, vacancies, absent elements); limits around the true smallest distance, around distances to other '
            'elements, around cell edges, and absolute; one restriction asked about several related cells. Oracle: smallest periodic distance incl. own images, by exhaustive image '
            'search in a reduced cell. Non-trivial: a limit within 25% of the true smallest distance.',
            ['no limit within 1e-5 of the true distance'])
