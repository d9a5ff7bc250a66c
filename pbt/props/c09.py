"""C09: refined, primitive and reshaped cells describe the same crystal."""
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G
from engine import Facet, Prop, must


I3 = np.eye(3)
# primitive from conventional basis vectors (columns), by the centring
CENTRE = {'P': I3, 'A': np.array([[1, 0, 0], [0, .5, -.5], [0, .5, .5]]), 'C': np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]]),
          'I': np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2, 'F': np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2,
          'R': np.array([[2, -1, -1], [1, 1, -2], [1, 1, 1]]) / 3.}


def aligned(L, eps=1e-6):
    """first vector along x, second in the xy plane"""
    return max(abs(L[0][1]), abs(L[0][2]), abs(L[1][2])) < eps and L[0][0] > 0 and L[1][1] > 0 and L[2][2] > 0


def conventional(Lp, centring):
    return (np.array(Lp).T @ np.linalg.inv(CENTRE[centring])).T


def standard_primitive(Lp, eps):
    """is this the primitive basis of some conventional one in standard orientation?"""
    return any(aligned(conventional(Lp, k), eps) for k in CENTRE)


def metric_ok(L, num, eps=1e-6):
    """does the lattice have the shape of the crystal system of space group num, exactly"""
    Gm = L @ L.T
    d = np.diag(Gm)
    eps *= d.max()
    if num >= 195:
        return np.abs(Gm - I3 * d[0]).max() < eps
    if num >= 143:
        return abs(d[0] - d[1]) < eps and abs(Gm[0, 1] + d[0] / 2) < eps and max(abs(Gm[0, 2]), abs(Gm[1, 2])) < eps
    if num >= 75:
        return np.abs(Gm - np.diag([d[0], d[0], d[2]])).max() < eps
    if num >= 16:
        return np.abs(Gm - np.diag(d)).max() < eps
    return num < 3 or max(abs(Gm[0, 1]), abs(Gm[1, 2])) < eps


def run(w, case):
    r = w.call('refine', cell=case['cell'])
    c = r['cell']
    must(r['after'] == c, 'the cell changed')
    A = G.arrs(c)
    nt_ = C.n_pure_translations(*A, tol=G.TOL)
    N = len(c['num'])
    must(r['prim'] == (nt_ == 1), 'is_primitive is %s, the cell has %d pure translations' % (r['prim'], nt_))
    must(r['sg'] == r['spglib_sg'], 'space group %s, spglib says %s' % (r['sg'], r['spglib_sg']))
    for k in ('refined', 'pcell', 'shaped'):
        d = r[k]
        B = G.arrs(d)
        must(C.same_crystal(A, B, tol=1e-3), 'the %s cell is another crystal: %s' % (k, {x: d[x] for x in ('lat', 'pos', 'num')}))
        must(d['sg'] == r['sg'], 'the %s cell has space group %s instead of %s' % (k, d['sg'], r['sg']))
    must(len(r['pcell']['num']) * nt_ == N and r['pcell']['prim'], 'the primitive cell has %d atoms, %d expected' % (len(r['pcell']['num']), N // nt_))
    must(len(r['shaped']['num']) == N, 'the reshaped cell has %d atoms, not %d' % (len(r['shaped']['num']), N))
    va = abs(np.linalg.det(A[0])) / N
    for k in ('refined', 'pcell', 'shaped'):
        must(abs(abs(np.linalg.det(np.array(r[k]['lat']))) / len(r[k]['num']) / va - 1) < 1e-3, 'the %s cell has another density' % k)
    L, cen = np.array(r['refined']['lat']), r['sg'][0]
    num = int(r['sg'].split('(')[1].split(')')[0])
    must(aligned(L) and metric_ok(L, num), 'the refined lattice %s is not the conventional one of %s in standard orientation' % (L.tolist(), r['sg']))
    must(len(r['refined']['num']) * round(24 * np.linalg.det(CENTRE[cen])) == 24 * len(r['pcell']['num']),
         'the refined cell of a %s crystal has %d atoms, the primitive one %d' % (r['sg'], len(r['refined']['num']), len(r['pcell']['num'])))
    must(np.abs(conventional(r['pcell']['lat'], cen) - L).max() < 1e-5, 'the primitive lattice %s is not the %s-primitive one of the refined lattice %s' % (r['pcell']['lat'], cen, L.tolist()))
    lab = ['prim' if nt_ == 1 else 'nonprim', r['sg']]
    if case['mat'] is not None:
        e = G.cell(*G.expand(*A, case['mat']))
        q = w.call('refine', cell=e)
        must(q['sg'] == r['sg'], 'space group %s, of its supercell %s' % (r['sg'], q['sg']))
        must(len(q['pcell']['num']) == len(r['pcell']['num']), 'the primitive cell of a supercell has another size')
        lab.append('supercell')
    return N > 1, lab


@st.composite
def case(draw):
    c = draw(G.crystals_ok(10))
    return {'cell': c, 'mat': draw(G.hnf(3)) if draw(st.integers(0, 3)) == 0 else None}


@st.composite
def large_case(draw):
    c = draw(G.crystals_ok(112, min_atoms=55, nudge=False))
    assume(len(c['num']) > 40)
    return {'cell': c, 'mat': None}


PROP = Prop('C09', [Facet('refinement', case(), run, 900), Facet('large', large_case(), run, 64)],
            'Crystals as in C04 (up to 10 sites; large: 41-112 sites), a quarter also through a supercell of index 1-3. Oracle: reduction to a '
            'primitive lattice and search for a rigid motion between the two infinite crystals (independent of spglib), number '
            'of pure translations by direct search; shape and orientation of the conventional cell of each crystal system. Non-trivial: more than one site.',
            ['crystals whose symmetry is the same at 0.00015 and 0.06 Angstrom (nearly symmetric ones, off by 0.015-0.03 Angstrom or 0.5-1 percent: 0.00015 and 0.01)', 'mirror images count as the same crystal'])
