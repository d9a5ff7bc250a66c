"""C06: buckyball substitution - one structure per class under the 120 symmetries of C60."""
import itertools, math, random
import numpy as np
from hypothesis import strategies as st
import gens as G, occ
from engine import Facet, Prop, must, Violation

KNOWN = [1, 1, 23, 303, 4190]      # classes of C60-nXn under I_h (OEIS A007298-like, also by Burnside below)


def ih_perms(pos):
    """all rigid motions (incl. reflections) of the 60 points, by anchoring three sites"""
    P = np.array(pos, float)
    P = P - P.mean(0)
    D = np.linalg.norm(P[:, None] - P[None], axis=2)
    a = 0
    nb = np.argsort(D[0])[1:4]
    b, c = int(nb[0]), int(nb[1])
    tol = 0.02 * D[D > 1e-6].min()
    base = np.array([P[a], P[b], P[c]])
    inv = np.linalg.inv(base.T)
    out = set()
    for x in range(60):
        for y in np.where(np.abs(D[x] - D[a, b]) < tol)[0]:
            for z in np.where((np.abs(D[x] - D[a, c]) < tol) & (np.abs(D[y] - D[b, c]) < tol))[0]:
                R = np.array([P[x], P[y], P[z]]).T @ inv
                Q = P @ R.T
                d = np.linalg.norm(P[:, None] - Q[None], axis=2)
                m = d.argmin(1)
                if (d[np.arange(60), m] < 0.1 * D[D > 1e-6].min()).all() and len(set(m.tolist())) == 60:
                    out.add(tuple(int(v) for v in m))
    return out


_ih = {}


def ih(w):
    """the oracle group for the sites as the code orders them; every worker is asked once"""
    if id(w.p) not in _ih:
        _ih.clear()
        r = w.call('bucky_info', numbers=[6] * 60)
        pos = np.array(r['pos']) @ np.array(r['lat'])
        _ih[id(w.p)] = sorted(ih_perms(pos))
    return _ih[id(w.p)]


def burnside(perms, k):
    """number of classes of k-subsets under a permutation group"""
    tot = 0
    for p in perms:
        seen, cyc = set(), []
        for i in range(len(p)):
            if i not in seen:
                l = 0
                while i not in seen:
                    seen.add(i)
                    i = p[i]
                    l += 1
                cyc.append(l)
        poly = [1] + [0] * k
        for l in cyc:
            for j in range(k, l - 1, -1):
                poly[j] += poly[j - l]
        tot += poly[k]
    assert tot % len(perms) == 0
    return tot // len(perms)


def run_table(w, case):
    r = w.call('bucky_info', numbers=case)
    must(r['num'] == case, 'the occupation changed')
    must(len(r['perms']) == 120, '%d symmetry permutations, C60 has 120' % len(r['perms']))
    pos = np.array(r['pos']) @ np.array(r['lat'])
    want = ih_perms(pos)
    assert len(want) == 120, 'oracle'
    got = {tuple(p) for p in r['perms']}
    must(got == want, 'the permutation table is not the symmetry group of the 60 sites (%d of 120 right)' % len(got & want))
    return len(set(case)) > 1, ['table']


@st.composite
def start(draw, kmax=3):
    z = draw(G.distinct_elements(3).filter(lambda l: 6 not in l))
    num = [6] * 60
    for _ in range(draw(st.integers(0, kmax))):
        num[draw(st.integers(0, 59))] = z[draw(st.integers(0, 1))]
    return num, z


@st.composite
def lcase(draw):
    num, z = draw(start())
    s = draw(st.sampled_from([z[2], z[2], z[0], 6]))
    n0 = num.count(s)
    if s == 6:
        num = [z[1] if i not in set(draw(st.lists(st.integers(0, 59), max_size=2))) else 6 for i in range(60)]
        n0 = num.count(6)
    steps = draw(st.sampled_from([0, 1, 1, 2, 2]))
    if len(set(num)) == 1 and draw(st.integers(0, 3)) == 0:
        steps = 3
    return {'numbers': num, 'nmax': n0 + steps, 'spz': s, 'order': draw(st.sampled_from(['seq', 'outer_first', 'reverse'])),
            'warm': draw(st.sampled_from([None, None, s, z[2], z[1]]))}


def run_levels(w, case):
    perms = ih(w)
    r = w.call('bucky_levels', **case)
    num = case['numbers']
    s = case['spz']
    must(r['after'] == num, 'enumerating changed the start structure')
    n0 = num.count(s)
    must(r['n_init'] == n0, 'get_speckle_num is %d, there are %d' % (r['n_init'], n0))
    must(len(r['levels']) == 1 + max(0, case['nmax'] - n0), '%d levels' % len(r['levels']))
    must(r['levels'][0] == [num], 'the first level is not the start structure')
    el = [i for i in range(60) if num[i] != s]
    nt = False
    for i, lv in enumerate(r['levels'][1:], 1):
        if i <= 2:
            k = occ.judge(perms, num, occ.labelings(num, el, i, s), lv, 'buckyball level %d' % i)
            nt = nt or k > 1
        else:
            # start is uniform here: count by Burnside, members by validity and distinct classes
            for x in lv:
                must(x.count(s) == n0 + i and all(a == b or b == s for a, b in zip(num, x)), 'not a substitution: %s' % x)
            O = occ.Orbits(perms, set(num) | {s})
            c = O.canon(lv)
            must(len(set(c)) == len(c), 'symmetry duplicates at level %d' % i)
            if len(set(num)) == 1:
                must(len(c) == burnside(perms, i), 'level %d has %d classes, C60 has %d' % (i, len(c), burnside(perms, i)))
            nt = True
    return nt, ['levels%d' % len(r['levels']), case['order'], 'uniform' if len(set(num)) == 1 else 'mixed']


@st.composite
def fcase(draw):
    num, z = draw(start(2))
    what = draw(st.sampled_from(['nodup', 'nodup', 'nodup', 'add', 'add', 'add', 'one']))
    k = draw(st.integers(1, 8)) if what != 'one' else 1
    ops = [[draw(st.sampled_from(['new', 'img', 'img', 'swap'])), draw(st.integers(0, 10 ** 6)),
            draw(st.lists(st.tuples(st.integers(0, 59), st.sampled_from(z + [6])), max_size=3))] for _ in range(k)]
    return {'numbers': num, 'what': what, 'spz': z[2], 'ops': [[a, b, [list(x) for x in c]] for a, b, c in ops], 'again': draw(st.booleans())}


def run_filter(w, case):
    perms = ih(w)
    stream = []
    for kind, k, ch in case['ops']:
        if kind == 'new' or not stream:
            x = list(case['numbers'])
            for i, z in ch:
                x[i] = z
        else:
            y = stream[k % len(stream)]
            p = perms[(k // 7) % len(perms)]
            x = [y[q] for q in p]
            if kind == 'swap' and ch:
                i, j = ch[0][0], ch[-1][0]
                x[i], x[j] = x[j], x[i]
        stream.append(x)
    r = w.call('bucky_filter', stream=stream, what=case['what'], spz=case['spz'], again=case.get('again', False) and case['what'] != 'one')
    must(r['src'] == stream, 'the input was modified')
    return [fjudge(case, perms, stream, o) for o in r['outs']][0]


def fjudge(case, perms, stream, out):
    if case['what'] == 'nodup':
        n = occ.judge(perms, stream[0], {tuple(x) for x in stream}, out, 'duplicate removal')
        return 1 < n < len(stream), ['nodup']
    want = set()
    for s in stream:
        for i in range(60):
            if s[i] != case['spz']:
                x = list(s)
                x[i] = case['spz']
                want.add(tuple(x))
    got = [tuple(x) for x in out]
    must(len(set(got)) == len(got), 'a structure twice')
    must(set(got) == want, 'adding one atom gave %d structures, expected %d' % (len(got), len(want)))
    return len(stream) > 1 or case['what'] == 'one', [case['what']]


# inequivalent occupations that share a 32 bit xxhash (found by search): they were once taken for each other
COLLIDING = [[[0, 17, 47, 55], [0, 37, 46, 54]], [[1, 5, 41, 46], [9, 27, 39, 42]], [[2, 7, 22, 59], [11, 12, 14, 25]]]


def run_long(w, case):
    """a long stream of different structures: no one may be taken for another"""
    perms = ih(w)
    rs = random.Random(case['seed'])
    stream = []
    for _ in range(case['k']):
        x = [6] * 60
        for i in rs.sample(range(60), rs.randint(4, 8)):
            x[i] = rs.choice([5, 7])
        stream.append(x)
    r = w.call('bucky_filter', stream=stream, what='nodup')
    n = occ.judge(perms, stream[0], {tuple(x) for x in stream}, r['outs'][0], 'duplicate removal from %d structures' % case['k'])
    return n > 1, ['long']


def run_speckle(w, case):
    r = w.call('bucky_speckle', **case)
    n = case['noa']
    sets = {tuple(x[0]) for x in r}
    must(all(x[2] == 60 and set(x[1]) <= {6, case['spz']} for x in r), 'not a substituted C60')
    must(len(sets) == len(r) == math.comb(60, n) and all(len(s) == n for s in sets), '%d occupations, expected %d distinct ones'
         % (len(r), math.comb(60, n)))
    return n > 0, ['noa%d' % n]


PROP = Prop('C06', [
    Facet('table', start().map(lambda x: x[0]), run_table, 40),
    Facet('levels', lcase(), run_levels, 90, fixed=[{'numbers': [6] * 60, 'nmax': 3, 'spz': 5, 'order': 'seq'}], timeout=240),
    Facet('streams', fcase(), run_filter, 500, fixed=[{'numbers': [6] * 60, 'what': 'nodup', 'spz': 5, 'ops': [
        ['new', 0, [[i, 5] for i in a]], ['new', 0, [[i, 5] for i in b]]]} for a, b in COLLIDING]),
    Facet('long_streams', st.builds(lambda s: {'seed': s, 'k': 2500}, st.integers(0, 10 ** 9)), run_long, 8, 200, timeout=240),
    Facet('speckle', st.builds(lambda z, n: {'spz': z, 'noa': n}, G.elements().filter(lambda z: z != 6), st.sampled_from([0, 1, 2, 2])),
          run_speckle, 30),
], 'Start occupations of C60 (0-3 foreign atoms or nearly full), 0-3 substitution steps, three orders of reading the '
   'levels; streams mixing random occupations with symmetry images of earlier ones, and long streams (2500) of random occupations. Oracle: the 120 rigid motions of the 60 '
   'sites found geometrically, orbits by brute force (two steps) or Burnside count (three). Non-trivial: more than one '
   'class at a level; for streams, some but not all are duplicates.',
    ['Z=6 is the host element'])
