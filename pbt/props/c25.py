"""C25: neighbour lists of grid structures contain exactly the grid points within the radius."""
import itertools, math
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st, assume
import gens as G
from engine import Facet, Prop, must

M2 = [[[2, 0], [1, 1.732058]], [[1, 0], [0, 1]], [[1, 0], [0, 1.7]], [[1, 0.3], [-0.4, 1.2]], [[3, 0], [2.9, 1.0]]]
M3 = [[[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1.3, 0], [0, 0, 1.9]], [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]],
      [[0, 0, 20], [1, 0, 0], [.5, .8660254, 0]], [[1, 0, 0], [.3, 1.1, 0], [-.2, .4, .9]]]


def square(m, a, b):
    """squared distance of two grid points, without rounding"""
    n = [x - y for x, y in zip(b, a)]
    return sum(sum(Fraction(v[i]) * t for v, t in zip(m, n)) ** 2 for i in range(len(n)))


def dyadic(m):
    return all(float(x) * 64 == int(float(x) * 64) for r in m for x in r)


@st.composite
def case(draw, k):
    m = draw(st.sampled_from(M2 if k == 2 else M3))
    if draw(st.integers(0, 3)) == 0:
        m = [[draw(st.integers(-8, 8)) / 4. for _ in range(k)] for _ in range(k)]
        assume(abs(np.linalg.det(np.array(m))) > 0.1)
    size = [draw(st.integers(1, 9 if k == 2 else 5)) for _ in range(k)]
    if draw(st.integers(0, 3)) == 0:               # long grids, finely spaced along the long axis
        i = draw(st.integers(0, k - 1))
        size = [draw(st.integers(1, 3)) for _ in range(k)]
        size[i] = draw(st.integers(6, 60))
        m = [list(v) for v in m]
        f = draw(st.sampled_from([1, 0.5, 0.25, 0.125]))
        m[i] = [x * f for x in m[i]]
    q = []
    for _ in range(draw(st.integers(1, 4))):
        pos = [draw(st.integers(0, s - 1)) for s in size]
        if draw(st.integers(0, 3)) == 0:           # exactly the distance of some grid point, where floating point can hold it
            to = [draw(st.integers(0, s - 1)) for s in size]
            d2 = square(m, pos, to)
            d = math.isqrt(d2.numerator) / math.isqrt(d2.denominator)
            if d2 > 0 and Fraction(d) ** 2 == d2:
                q.append([pos, d])
                continue
        q.append([pos, draw(st.sampled_from([0.3, 0.8, 0.95, 1.05, 1.45, 1.8, 2.1, 2.6, 3.3, 5.2, 21.0]))])
    return {'m': m, 'size': size, 'queries': q}


def run(w, case):
    m = np.array(case['m'], float)
    pts = [list(x) for x in itertools.product(*[range(s) for s in case['size']])]
    qs, want = [], []
    nt = False
    ties = 0
    for pos, d in case['queries']:
        ds = [np.linalg.norm((np.array(x) - np.array(pos)) @ m) for x in pts]
        tie = [x for x, t in zip(pts, ds) if abs(t - d) < 1e-6]
        # a point exactly on the sphere belongs to it; with other lattices rounding decides
        if tie and not (dyadic(case['m']) and all(square(case['m'], pos, x) == Fraction(d) ** 2 for x in tie)):
            continue
        qs.append([pos, d])
        want.append(sorted(x for x, t in zip(pts, ds) if (t < d or x in tie) and x != pos))
        ties += len(tie) > 0
        nt = nt or 0 < len(want[-1]) < len(pts) - 1
    r = w.call('neighbors', m=case['m'], size=case['size'], queries=qs)
    must(r['mid'] == [s // 2 for s in case['size']], 'the middle of %s is %s' % (case['size'], r['mid']))
    must(np.array(r['arr']).shape == tuple(case['size']), 'shape')
    for (pos, d), a, b in zip(qs, r['out'], want):
        must(a == b, 'neighbours of %s within %s on the %s grid: %s, expected %s' % (pos, d, case['size'], a, b))
    return nt and len(set(case['size'])) > 1, ['n%d' % len(qs)] + ['on_the_sphere'] * (ties > 0) + ['long'] * (max(case['size']) > 9)


PROP = Prop('C25', [Facet('plane', case(2), run, 1500), Facet('space', case(3), run, 1500)],
            'Planar (1-9 per axis) and three-dimensional (1-5 per axis) grids, a quarter long ones (6-60 points on one axis), on common and random lattices, all shapes; any grid point; '
            'radii 0.3-21, and exactly the distance of some point where that is a floating point number. Oracle: own distances to every other grid point (no periodic images). Non-trivial: unequal '
            'axes and some but not all points within the radius.',
            ['no grid point within 1e-6 of the radius, unless it lies on the sphere exactly (coordinates in 64ths)'])
