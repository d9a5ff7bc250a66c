"""C18: perturbation and translation move atoms by the stated cartesian amount and nothing else."""
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G
from props.c14 import geo_cell
from engine import Facet, Prop, must


@st.composite
def pcase(draw):
    k = draw(st.integers(0, 7))
    c = draw(geo_cell(8 if k else 60))
    return {'cell': c, 'seed': draw(st.integers(0, 10 ** 6)),
            'distances': draw(st.lists(st.sampled_from([None, 0.01, 0.05, 0.2, 0.5, 1.0, 2.75, 0.0]), min_size=1, max_size=8))
            if k else [0.2] * max(1, 300 // len(c['num']) + 1)}


def run_perturb(w, case):
    L, p, n = G.arrs(case['cell'])
    r = w.call('perturb', seed=case['seed'], cell=case['cell'], distances=case['distances'], via='cell')
    vecs = []
    for d, (b, a, lat) in zip(case['distances'], r):
        d = 0.2 if d is None else d
        must(np.allclose(lat, L, atol=1e-12), 'the lattice changed')
        must([x[1] for x in a] == n.tolist() == [x[1] for x in b], 'the elements changed')
        v = (np.array([x[0] for x in a]) - np.array([x[0] for x in b])) @ L
        l = np.linalg.norm(v, axis=1)
        must(len(a) == len(n) and (np.abs(l - d) < 1e-6).all(), 'perturbation by %s moved the sites by %s' % (d, l.tolist()))
        if d:
            vecs += (v / d).tolist()
    vecs = np.array(vecs).reshape(-1, 3)
    # directions are drawn afresh for every site
    if len(vecs) > 1:
        o = vecs[np.argsort(vecs @ [0.6131, 0.7237, 0.3169])]
        same = np.abs(o[1:] - o[:-1]).max(1) <= 1e-9
        must(not same.any(), 'two displacements have the same direction %s' % o[1:][same][:1].tolist())
    if len(vecs) >= 3000:
        # a cap of 13 degrees about any of 226 directions holds 1.3% of the sphere: 3000 draws miss one with probability below 1e-14
        k = np.arange(200) + .5
        z, a = 1 - k / 100, np.pi * (1 + 5 ** .5) * k
        pts = np.concatenate([np.array([np.sqrt(1 - z * z) * np.cos(a), np.sqrt(1 - z * z) * np.sin(a), z]).T,
                              [np.array(x) / np.linalg.norm(x) for x in (np.array([y for y in np.ndindex(3, 3, 3) if y != (1, 1, 1)]) - 1.)]])
        hit = (vecs @ pts.T > np.cos(np.deg2rad(13))).any(0)
        must(hit.all(), 'none of %d displacements points towards %s' % (len(vecs), pts[~hit].round(2).tolist()[:3]))
    if len(vecs) >= 250:
        # every direction is possible: each octant and each cap of 36 degrees about the 26 principal directions is hit
        # (a cap holds 9.5% of the sphere: 250 draws miss one of 26 with probability 4e-10)
        caps = np.array([x for x in np.ndindex(3, 3, 3) if x != (1, 1, 1)]) - 1.
        caps /= np.linalg.norm(caps, axis=1)[:, None]
        hit = (vecs @ caps.T > np.cos(np.deg2rad(36))).any(0)
        must(hit.all(), 'none of %d displacements points towards %s' % (len(vecs), caps[~hit].round(2).tolist()))
        must(len(set(map(tuple, (vecs > 0).tolist()))) == 8, 'the displacements leave out an octant')
    if len(vecs) >= 40:
        for k in range(3):
            must(vecs[:, k].min() < 0 < vecs[:, k].max(), 'component %d has one sign in all %d displacements' % (k, len(vecs)))
            must(np.abs(vecs[:, k]).max() > 0.25, 'component %d is always small' % k)
    return len(vecs) > 1, ['many' if len(vecs) >= 40 else 'few']


@st.composite
def many(draw):
    c = draw(geo_cell(64).filter(lambda c: len(c['num']) > 5))
    return {'cell': c, 'seed': draw(st.integers(0, 10 ** 6)), 'distances': [0.2] * (3100 // len(c['num']) + 1)}


@st.composite
def fcase(draw):
    c = draw(geo_cell(3))
    return {'cell': c, 'pts': [[draw(st.integers(-300, 300)) / 100. for _ in range(3)] for _ in range(draw(st.integers(1, 4)))],
            'moves': [[draw(st.integers(0, len(c['num']) - 1)), [draw(st.integers(-300, 300)) / 100. for _ in range(3)]] for _ in range(draw(st.integers(1, 4)))]}


def run_frac(w, case):
    L, p, n = G.arrs(case['cell'])
    r = w.call('fraccart', cell=case['cell'], pts=case['pts'])
    must(np.allclose(r['cart'], np.array(case['pts']) @ L, atol=1e-8), 'cartesian %s of fractional %s' % (r['cart'], case['pts']))
    must(np.allclose(r['frac'], case['pts'], atol=1e-7), 'fractional -> cartesian -> fractional: %s from %s' % (r['frac'], case['pts']))
    script = [{'op': 'translate', 'c': 0, 'i': i, 'v': v} for i, v in case['moves']]
    t = w.call('modcell', cell=case['cell'], script=script)
    q = p.copy()
    for (i, v), (res, cells, _) in zip(case['moves'], t['trace']):
        q[i] = q[i] + np.array(v) @ np.linalg.inv(L)
        got = np.array([x[0] for x in cells[0]])
        must(np.allclose(got, q, atol=1e-8) and [x[1] for x in cells[0]] == n.tolist(), 'moving site %d by %s: %s, expected %s' % (i, v, got.tolist(), q.tolist()))
    return True, []


PROP = Prop('C18', [Facet('perturb', pcase(), run_perturb, 900), Facet('directions', many(), run_perturb, 24, 96), Facet('translate', fcase(), run_frac, 700)],
            'Cells as in C14, 1-8 perturbations in a row by 0-2.75 Angstrom (and the default); single-site translations. Oracle: '
            'cartesian length of every displacement, fresh directions (pairwise different; both signs of each component and '
            'no flat component within 40 or more displacements; 3000 displacements reach every 13 degree cap of the sphere), own fractional/cartesian transformation. Non-trivial: at least '
            'two displacements (translations: all).',
            ['40 independent uniform directions have both signs in each component (failure probability below 1e-11 per case)'])
