"""C03: stepwise enumeration gives, level by level, the direct enumeration, in any order of consumption."""
import math, random
from hypothesis import strategies as st, assume
import gens as G, occ
from engine import Facet, Prop, must

MAXCOMB = 1500


@st.composite
def case(draw, large=False):
    c = draw(G.crystals_ok(40, min_atoms=14, nudge=False) if large else G.crystals_ok(12, min_atoms=4))
    MAXC = 820 if large else MAXCOMB
    assume(not large or len(c['num']) > 12)
    N = len(c['num'])
    present = sorted(set(c['num']))
    kind = draw(st.sampled_from(['unitary', 'unitary', 'ele', 'wy']))
    z = draw(G.new_species(present))
    ele = None
    ws = None
    m = N - c['num'].count(z)
    if kind == 'ele':
        ele = draw(st.sampled_from(present * 4 + [77]))
        m = c['num'].count(ele) if ele != z else 0
    elif kind == 'wy':
        ws = draw(st.integers(0, N - 1))
    n0 = c['num'].count(z)
    steps = [k for k in range(0, m + 2) if sum(math.comb(m, i) for i in range(1, k + 1)) <= MAXC]
    k = G.skewed(draw, [x for x in steps if x >= 2] or steps, steps)
    n = n0 + k
    if draw(st.integers(0, 9)) == 0 and n0:
        n = draw(st.integers(0, n0))
    order = draw(st.sampled_from(['seq', 'outer_first', 'reverse', 'lazy', 'script']))
    script = draw(st.lists(st.tuples(st.integers(0, 6), st.integers(0, 4)), max_size=6)) if order == 'script' else []
    return {'cell': c, 'kind': kind, 'n': n, 'spz': z, 'ele': ele, 'wy_site': ws, 'order': order,
            'script': [list(x) for x in script],
            'warm': [draw(st.sampled_from(present + [26, z])), draw(st.integers(0, 9)), draw(st.integers(1, 2))] if draw(st.integers(0, 3)) == 0 else None}


def elig(case, num, wy):
    z = case['spz']
    if case.get('kind') == 'ele':
        return [i for i, e in enumerate(num) if e == case['ele'] and e != z]
    if case.get('kind') == 'wy':
        l = wy[case['wy_site'] % len(wy)]
        return [i for i, e in enumerate(num) if wy[i] == l and e != z]
    return [i for i, e in enumerate(num) if e != z]


def run(w, case):
    r = w.call('levels', **case)
    init = r['cell']
    must(r['after'] == init, 'enumerating changed the initial cell')
    num = init['num']
    perms = occ.perms_of(init)
    n0 = num.count(case['spz'])
    must(len(r['levels']) == max(0, case['n'] - n0), '%d levels, expected the counts %d..%d'
         % (len(r['levels']), n0 + 1, case['n']))
    el = elig(case, num, r['wyckoffs'])
    nt = False
    for i, lv in enumerate(r['levels']):
        what = 'level with %d x Z%d (%s, consumed %s)' % (n0 + i + 1, case['spz'], case['kind'], case['order'])
        allowed = occ.labelings(num, el, i + 1, case['spz'])
        got = occ.unpack(init, lv, what)
        k = occ.judge(perms, num, allowed, got, what)
        nt = nt or (i >= 1 and len(allowed) > k >= 2)
    return nt, [case['kind'], case['order'], 'levels%d' % len(r['levels'])]


@st.composite
def fcase(draw):
    c = draw(G.crystals_ok(8, min_atoms=3, recolor=False))
    N = len(c['num'])
    z = draw(G.elements())
    y = draw(G.elements())
    what = draw(st.sampled_from(['nodup', 'add', 'add_ele', 'add_wy']))
    k = draw(st.integers(0, 8))
    stream = draw(st.lists(st.lists(st.sampled_from([None, 0, 1]), min_size=N, max_size=N), min_size=k, max_size=k))
    return {'cell': c, 'z': z, 'y': y, 'what': what, 'stream': stream, 'ele': draw(st.sampled_from(sorted(set(c['num'])) + [y])),
            'wy_site': draw(st.integers(0, N - 1)), 'again': draw(st.booleans())}


def frun(w, case):
    c0 = w.call('sym', cell=case['cell'])['cell']
    num = c0['num']
    pal = [case['z'], case['y']]
    stream = [[num[i] if a is None else pal[a] for i, a in enumerate(s)] for s in case['stream']]
    z = case['z']
    r = w.call('filter', cell=case['cell'], stream=stream, what=case['what'], spz=z, ele=case['ele'],
               wy_site=case['wy_site'], again=case['again'])
    must(r['after'] == c0 and r['kept'], 'the input cells were modified')
    src = occ.unpack(c0, r['src'], 'source')
    return [fjudge(case, r, c0, num, src, occ.unpack(c0, o, case['what'])) for o in r['outs']][0]


def fjudge(case, r, c0, num, src, got):
    z = case['z']
    if case['what'] == 'nodup':
        perms = occ.perms_of(c0)
        occ.judge(perms, num, {tuple(s) for s in src}, got, 'removal of duplicates from a stream')
        return len(got) < len(src) and len(got) > 1, ['nodup']
    want = set()
    for s in src:
        for i, e in enumerate(s):
            if e == z:
                continue
            if case['what'] == 'add_ele' and e != case['ele']:
                continue
            if case['what'] == 'add_wy' and r['wyckoffs'][i] != r['wyckoffs'][case['wy_site'] % len(num)]:
                continue
            x = list(s)
            x[i] = z
            want.add(tuple(x))
    g = [tuple(x) for x in got]
    must(len(set(g)) == len(g), 'adding one atom gave a structure twice')
    must(set(g) == want, 'adding one atom gave %d structures, expected the %d ones with one more' % (len(g), len(want)))
    return len(want) > 1 and len(src) > 1, [case['what']]


def run_long(w, case):
    """a long stream of different structures: no one may be taken for another (identifiers must not collide)"""
    rs = random.Random(case['seed'])
    zs = [z for z in G.ZS if z]
    P = {'lat': [[5.1, 0.3, 0.2], [0.7, 6.2, -0.4], [-0.9, 0.5, 7.3]], 'num': [3, 4, 5, 7, 8, 9],
         'pos': [[.02, .11, .05], [.21, .43, .33], [.47, .77, .15], [.58, .29, .81], [.71, .64, .52], [.93, .88, .69]]}
    if case['sym']:                        # inversion only
        P['pos'] = [[.12, .11, .05], [.88, .89, .95], [.47, .77, .15], [.53, .23, .85], [.71, .64, .52], [.29, .36, .48]]
        P['num'] = [3, 3, 5, 5, 8, 8]
    perms = occ.perms_of(w.call('sym', cell=P)['cell'])
    stream = []
    for i in range(case['k']):
        if i > 100 and rs.random() < .06:              # a repeat, or the image of one, of any age
            x, q = rs.choice(stream), rs.choice(perms)
            stream.append([x[j] for j in q])
        else:
            stream.append([rs.choice(zs) for _ in range(6)])
    r = w.call('filter', cell=P, stream=stream, what='nodup')
    c0 = r['cell']
    perms = occ.perms_of(c0)
    assert len(perms) == (2 if case['sym'] else 1)
    src = occ.unpack(c0, r['src'], 'source')
    got = occ.unpack(c0, r['outs'][0], 'nodup')
    occ.judge(perms, c0['num'], {tuple(s) for s in src}, got, 'removal of duplicates from a stream of %d structures' % case['k'])
    return True, ['long']


PROP = Prop('C03', [Facet('levels', case(), run, 1800), Facet('levels_large', case(large=True), run, 64), Facet('steps', fcase(), frun, 800),
                    Facet('long_stream', st.builds(lambda s, y: {'seed': s, 'sym': y, 'k': 36000}, st.integers(0, 10 ** 9), st.booleans()), run_long, 8, 80, timeout=400)],
            'Crystals as in C04 (up to 12 sites; large: 13-40 sites and two levels); whole cell, one element or one Wyckoff letter; maximum count from below '
            'the present count to beyond the eligible sites; the level generators are read in sequence, all created '
            'first, in reverse, first-item-then-rest, or by a random script of partial reads; sometimes after another enumeration on the same object was partly read; the two steps sometimes on two streams read in turn. Non-trivial: a level '
            'reached through two or more steps with at least two classes and a duplicate to merge (steps: more than one '
            'structure in and out). Long streams: 36000 random occupations of a low-symmetry cell, 6% of them repeats or images of earlier ones.',
            ['crystals whose symmetry is the same at 0.00015 and 0.06 Angstrom (nearly symmetric ones, off by 0.015-0.03 Angstrom or 0.5-1 percent: 0.00015 and 0.01)', 'Wyckoff letters are taken from spglib directly'])
