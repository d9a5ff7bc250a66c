"""C23: a random arrangement is a connected set of distinct positions of the requested size, grown from the start."""
import itertools, random
import numpy as np
from hypothesis import strategies as st, assume
from engine import Facet, Prop, must

M = {'Boron2dArrangeProblem': np.array([[2, 0], [1, 1.732058]]), 'FCC3dArrangeProblem': np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])}


def grown(path, adjacent, what):
    must(len({str(x) for x in path}) == len(path), what + 'a position occurs twice: %s' % path)
    for i in range(1, len(path)):
        must(path[i] is not None and any(adjacent(path[j], path[i]) for j in range(i)), what + 'position %d, %s, has no neighbour before it in %s' % (i, path[i], path[:i]))


@st.composite
def gcase(draw):
    kind = draw(st.sampled_from(sorted(M)))
    return {'kind': kind, 'goal': draw(st.one_of(st.integers(1, 24 if kind.startswith('B') else 9), st.integers(1, 24 if kind.startswith('B') else 9), st.integers(25, 38) if kind.startswith('B') else st.integers(8, 10))), 'seed': draw(st.integers(0, 10 ** 6))}


def run_grid(w, case):
    r = w.call('arrange', seed=case['seed'], kind=case['kind'], goal=case['goal'])
    m = M[case['kind']]
    k, g = len(m), case['goal']
    p = r['path']
    must(len(p) == g, '%d positions, asked for %d' % (len(p), g))
    must(p[0] == [g // 2] * k == r['start'], 'it starts at %s' % p[0])
    must(all(len(x) == k and all(0 <= v < g for v in x) for x in p), 'a position outside of the grid: %s' % p)
    grown(p, lambda a, b: np.linalg.norm((np.array(a) - np.array(b)) @ m) <= 2.1, '')
    # the positions that may follow one: all of the grid within 2.1, and no others
    every = [list(x) for x in itertools.product(range(g), repeat=k)]
    X = np.array(every)
    for q, near in zip(p[:2] + p[-1:], r['near']):
        d = np.linalg.norm((X - np.array(q)) @ m, axis=1)
        want = sorted(x for x, y in zip(every, d) if y <= 2.1 and x != q)
        must(sorted(near) == want, 'the neighbours of %s are %s, expected %s' % (q, sorted(near), want))
    must(r['goal'] == [i == g for i in range(g + 3)], 'the goal is reached at %s' % r['goal'])
    return g > 3, [case['kind']]


@st.composite
def ccase(draw):
    n = draw(st.one_of(st.integers(1, 14), st.integers(1, 14), st.integers(15, 240)))
    # a connected part by random attachment, extra edges, and perhaps an island
    shape = draw(st.sampled_from(['tree', 'path', 'bush'])) if n > 14 else None
    rs = random.Random(draw(st.integers(0, 10 ** 6)))
    if shape is None:
        e = [[draw(st.integers(0, i - 1)), i] for i in range(1, n)]
    else:
        e = [[rs.randint({'tree': 0, 'path': max(0, i - 2), 'bush': 0}[shape], i - 1 if shape != 'bush' else min(i - 1, 3)), i] for i in range(1, n)]
        for _ in range(rs.randint(0, 2 * n)):
            a, b = rs.randint(0, n - 1), rs.randint(0, n - 1)
            if a != b:
                e.append([a, b])
    for _ in range(draw(st.integers(0, 8))):
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if a != b:
            e.append([a, b])
    if draw(st.booleans()):
        e += [[1000, 1001], [1001, 1002]]
    return {'edges': e, 'start': draw(st.integers(0, n - 1)), 'goal': draw(st.sampled_from([n, n, max(1, n - 1), 1, (n + 1) // 2])), 'seed': draw(st.integers(0, 10 ** 6)), 'n': n}


def run_custom(w, case):
    r = w.call('arrange', seed=case['seed'], kind='custom', goal=case['goal'], edges=case['edges'], start=case['start'])
    p = r['path']
    E = {(a, b) for a, b in case['edges']} | {(b, a) for a, b in case['edges']}
    must(len(p) == case['goal'], '%d positions, asked for %d' % (len(p), case['goal']))
    must(p[0] == case['start'], 'it starts at %s instead of %s' % (p[0], case['start']))
    grown(p, lambda a, b: (a, b) in E, '')
    if case['goal'] == case['n']:
        must(sorted(p) == list(range(case['n'])), 'not all reachable positions: %s' % p)
    return case['goal'] > 2, ['whole' if case['goal'] == case['n'] else 'part']


@st.composite
def dcase(draw):
    k = draw(st.one_of(st.integers(2, 6), st.integers(7, 60)))
    return {'leaves': k, 'depth': draw(st.integers(0, 1)), 'seed': draw(st.integers(0, 10 ** 5))}


def run_random(w, case):
    """on a star every leaf must be able to come first, and different seeds give different orders"""
    k = case['leaves']
    e = [[0, i] for i in range(1, k + 1)]
    firsts, last = set(), set()
    N = 32 * k + 30
    for p in w.call('arrange_many', seed=case['seed'], times=N, goal=k + 1, edges=e, start=0):
        must(sorted(p) == list(range(k + 1)), 'not all reachable positions: %s' % p)
        firsts.add(p[1])
        last.add(p[-1])
    must(firsts == set(range(1, k + 1)), 'in %d arrangements of a star the first step is always one of %s of %d' % (N, sorted(firsts), k))
    must(last == set(range(1, k + 1)), 'in %d arrangements of a star the last step is always one of %s of %d' % (N, sorted(last), k))
    return True, ['k%d' % k]


PROP = Prop('C23', [Facet('grids', gcase(), run_grid, 330), Facet('graphs', ccase(), run_custom, 2500), Facet('random', dcase(), run_random, 32)],
            'The planar boron and the fcc problem (1-38 and 1-10 positions), and random graphs (1-240 reachable nodes, extra edges, an '
            'island) with goals up to the whole component. Oracle: size, start, distinctness and adjacency by own geometry or edge '
            'list; on stars each leaf must be reachable first and last. Non-trivial: more than 2-3 positions.',
            ['the goal does not exceed the reachable part', '32k+30 draws from k items miss one with probability below 1e-10'])
