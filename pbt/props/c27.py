"""C27: grids of sites convert losslessly, copies are independent, random fillings use the two species only."""
import copy
import numpy as np
from hypothesis import strategies as st, assume
import gens as G
from engine import Facet, Prop, must


@st.composite
def case(draw):
    d = [draw(st.integers(1, 4)) for _ in range(3)]
    zs = draw(st.lists(G.elements(), min_size=1, max_size=4))
    arr = np.array(draw(st.lists(st.sampled_from(zs), min_size=int(np.prod(d)), max_size=int(np.prod(d))))).reshape(d).tolist()
    script = []
    for _ in range(draw(st.integers(0, 14))):
        op = draw(st.sampled_from(['copy', 'copy', 'set', 'set', 'set', 'get', 'eq', 'eq', 'roundtrip', 'sea', 'cstru', 'sub']))
        s = [op, draw(st.integers(0, 3))]
        if op == 'sub':
            s.append([draw(st.integers(0, 4)) for _ in d])
            if draw(st.booleans()):       # and compare it with the grid it is cut from, both ways
                script.append(s)
                script.append(['eq', s[1], -1])
                s = ['eq', -1, s[1]]
        if op in ('set', 'get'):
            s.append([draw(st.integers(0, k - 1)) for k in d])
        if op == 'set':
            s.append(draw(st.one_of(st.sampled_from(zs), G.elements())))
        if op == 'eq':
            s.append(draw(st.integers(0, 3)))
        if op == 'sea':
            s.append(draw(G.elements()))
        script.append(s)
    m = draw(st.sampled_from([[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]]))
    return {'arr': arr, 'm': m, 'script': script, 'fill': draw(G.distinct_elements(2)) if draw(st.integers(0, 5)) else [6, 6], 'seed': draw(st.integers(0, 9999))}


def run3(w, case):
    r = w.call('grid3', seed=case['seed'], arr=case['arr'], m=case['m'], script=case['script'], fill=case['fill'])
    shape = np.array(case['arr']).shape
    must(tuple(r['dims']) == shape, 'dimensions %s' % r['dims'])
    must(r['first'] == [case['arr']], 'array -> grid -> array: %s from %s' % (r['first'], case['arr']))
    grids = [copy.deepcopy(case['arr'])]
    edits = 0
    for i, (s, (res, v)) in enumerate(zip(case['script'], r['trace'])):
        k = s[1] % len(grids)
        g = grids[k]
        what = 'step %d %s: ' % (i, s)
        if s[0] in ('copy', 'roundtrip'):
            grids.append(copy.deepcopy(g))
        elif s[0] == 'set':
            a, b, c = [x % y for x, y in zip(s[2], np.shape(g))]
            g[a][b][c] = s[3]
            edits += len(grids) > 1
        elif s[0] == 'get':
            a, b, c = [x % y for x, y in zip(s[2], np.shape(g))]
            must(res == g[a][b][c], what + 'read %s, expected %s' % (res, g[a][b][c]))
        elif s[0] == 'eq':
            e = g == grids[s[2] % len(grids)]
            must(res == [e, False, e, False, False], what + 'comparisons %s, expected %s' % (res, [e, False, e, False, False]))
        elif s[0] == 'sub':
            b, e, f = [max(1, x % (y + 1)) for x, y in zip(s[2], np.shape(g))]
            grids.append([[row[:f] for row in layer[:e]] for layer in g[:b]])
            must(res == [b, e, f], what + 'dimensions %s' % res)
        elif s[0] == 'sea':
            grids.append(np.full(shape, s[2]).tolist())
        elif s[0] == 'cstru':
            want = [g, [x // 2 for x in np.shape(g)], list(np.shape(g)), np.array(case['m'], float).tolist()] + [np.array(g).reshape(-1).tolist()] * 2
            must(res == [want] * 2, what + 'structure %s, expected %s' % (res, want))
        must(v == grids, what + 'the grids are %s, expected %s' % (v, grids))
    f = np.array(r['fill'])
    must(f.shape == shape and set(f.reshape(-1).tolist()) <= set(case['fill']), 'random filling with %s: %s' % (case['fill'], r['fill']))
    return edits > 0, ['edits%d' % min(3, edits)]


@st.composite
def rcase(draw):
    return {'fill': draw(G.distinct_elements(2)), 'seed': draw(st.integers(0, 99999))}


def run_fill(w, case):
    r = w.call('grid3', seed=case['seed'], arr=np.zeros((5, 6, 4), int).tolist(), m=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], script=[], fill=case['fill'])
    f = np.array(r['fill'])
    n = [int((f == z).sum()) for z in case['fill']]
    must(f.shape == (5, 6, 4) and sum(n) == 120 and min(n) > 0, 'random filling of 120 sites with %s: counts %s' % (case['fill'], n))
    return True, []


@st.composite
def pcase(draw):
    d = [draw(st.integers(1, 6)) for _ in range(2)]
    zs = draw(st.lists(G.elements(), min_size=1, max_size=4))
    return {'arr': np.array(draw(st.lists(st.sampled_from(zs), min_size=d[0] * d[1], max_size=d[0] * d[1]))).reshape(d).tolist(),
            'm': draw(st.sampled_from([[[2, 0], [1, 1.732058]], [[1, 0], [0, 1]]])), 'spz': draw(G.elements())}


def run2(w, case):
    r = w.call('grid2', **case)
    d = list(np.array(case['arr']).shape)
    must(r['arr'] == case['arr'] == r['back'] == r['carr'] and r['eq'], 'array -> grid -> array: %s from %s' % (r['arr'], case['arr']))
    must(r['dims'] == d + d and r['mid'] == [x // 2 for x in d], 'dimensions %s, middle %s' % (r['dims'], r['mid']))
    must(r['sea'] == np.full(d, case['spz']).tolist() and r['sea0'] == np.zeros(d, int).tolist(), 'uniform grids')
    whole = [(i, j) == (d[0], d[1]) for i in range(1, d[0] + 1) for j in range(1, d[1] + 1)]
    must(r['sub'] == r['bus'] == whole, 'comparison with the corners of the grid: %s %s' % (r['sub'], r['bus']))
    must(r['eqsea'] == (r['arr'] == r['sea']) and not r['none'], 'comparison')
    must(np.allclose(r['m'], case['m']), 'lattice')
    return len(set(sum(case['arr'], []))) > 1, []


PROP = Prop('C27', [Facet('space', case(), run3, 1200), Facet('plane', pcase(), run2, 700), Facet('fill', rcase(), run_fill, 200)],
            'Grids (1-4 per axis in space, 1-6 in the plane) of up to 4 species incl. vacancies; histories of up to 14 copies, assignments, '
            'reads, comparisons and conversions over several live grids; random fillings. Oracle: nested python lists. '
            'Non-trivial: an assignment while a copy is alive (plane: two species; fill: all).',
            ['120 fair draws use both species (failure probability below 1e-35)'])
