"""C24: the random-pop set is a set, with every element reachable by a random draw."""
from hypothesis import strategies as st, assume
from engine import Facet, Prop, must

OPS1 = ['add', 'push', 'discard', 'remove', 'in']
OPS0 = ['random_pop', 'random_pop', 'get_random', 'pop', 'clear', 'draws', 'drain']


@st.composite
def step(draw):
    k = draw(st.integers(0, 9))
    i = draw(st.integers(0, 3))
    if k < 5:
        return [draw(st.sampled_from(OPS1)), i, draw(st.integers(0, 11))]
    if k < 7:
        return [draw(st.sampled_from(OPS0)), i]
    if k == 7:
        return [draw(st.sampled_from(['|=', '&=', '-=', '^=', 'new'])), i, draw(st.lists(st.integers(0, 11), max_size=5))]
    if k == 8:
        return [draw(st.sampled_from(['|', '&', '-', '^', '|=', '&=', '-=', '^='])), i, draw(st.integers(0, 3))]
    return ['cmp', i, draw(st.integers(0, 3))]


@st.composite
def case(draw):
    big = st.lists(st.integers(0, 63), max_size=80)
    return {'init': draw(st.one_of(st.none(), st.lists(st.integers(0, 11), max_size=9), st.lists(st.integers(0, 11), max_size=9), big)), 'script': draw(st.lists(step(), min_size=1, max_size=30)),
            'keys': draw(st.sampled_from(['int', 'str', 'tuple'])), 'seed': draw(st.integers(0, 10 ** 6))}


def run(w, case):
    r = w.call('randset', seed=case['seed'], init=case['init'], script=case['script'], keys=case['keys'])
    sets = [set(case['init'] or [])]

    def same(v, what):
        must(len(v) == len(sets), what + 'number of sets')
        for (els, n, lst), m in zip(v, sets):
            must(els == sorted(m) and lst == sorted(m) and n == len(m), what + 'the set is %s (length %d), expected %s' % (els, n, sorted(m)))
    same(r['start'], 'created: ')
    pops = 0
    for i, (st_, (res, v)) in enumerate(zip(case['script'], r['trace'])):
        op = st_[0]
        m = sets[st_[1] % len(sets)]
        what = 'step %d (%s %s): ' % (i, op, st_[2:])
        must(res != 'KeyError' or op in ('remove', 'pop'), what + 'KeyError')
        if op in ('add', 'push'):
            m.add(st_[2])
        elif op == 'discard':
            m.discard(st_[2])
        elif op == 'remove':
            must((res == 'KeyError') == (st_[2] not in m), what + 'result %s' % res)
            m.discard(st_[2])
        elif op == 'in':
            must(res == (st_[2] in m), what + 'membership %s' % res)
        elif op in ('random_pop', 'get_random', 'pop'):
            if not m:
                must(res == ('KeyError' if op == 'pop' else None) or (op == 'pop' and res is None), what + 'an empty set gave %s' % res)
            else:
                must(res in m, what + '%s was drawn from %s' % (res, sorted(m)))
                pops += len(m) > 1
                if op != 'get_random':
                    m.discard(res)
        elif op == 'clear':
            m.clear()
        elif op == 'draws':
            must(res == sorted(m), what + 'in 60 draws per element only %s of %s appeared' % (res, sorted(m)))
        elif op == 'drain':
            must(sorted(res) == sorted(m), what + 'drained %s from %s' % (res, sorted(m)))
            pops += len(m) > 1
            m.clear()
        elif op in ('|=', '&=', '-=', '^='):
            o = set(sets[st_[2] % len(sets)] if isinstance(st_[2], int) else st_[2])
            must(res is True, what + 'another set')
            if op == '|=':
                m |= o
            elif op == '&=':
                m &= o
            elif op == '^=':
                m ^= o
            else:
                m -= o
        elif op == 'new':
            sets.append(set(st_[2]))
        elif op in ('|', '&', '-', '^'):
            o = sets[st_[2] % len(sets)]
            sets.append({'|': m | o, '&': m & o, '-': m - o, '^': m ^ o}[op])
        elif op == 'cmp':
            o = sets[st_[2] % len(sets)]
            want = [m == o, m <= o, m < o, m.isdisjoint(o), m == o, m >= o, m > o, m != o, m <= o, m >= o]
            must(res == want, what + 'comparisons %s, expected %s' % (res, want))
        same(v, what)
    return pops > 0, ['pops%d' % min(3, pops), case['keys']]


@st.composite
def lcase(draw):
    """large sets"""
    k = draw(st.one_of(st.integers(12, 64), st.integers(65, 250)))
    keys = st.integers(0, 255)
    script = []
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from(['draws', 'drain', 'random_pop', 'random_pop', 'discard', 'add', 'new', '-=', '|=', '&', '|', '-', 'cmp', 'in']))
        if op in ('draws', 'drain', 'random_pop'):
            a = []
        elif op in ('discard', 'add', 'in'):
            a = [draw(keys)]
        elif op in ('new', '-=', '|='):
            j, n = draw(keys), draw(st.integers(0, 60))
            a = [[(j + x * 3) % 256 for x in range(n)]]
        else:
            a = [draw(st.integers(0, 3))]
        script.append([op, draw(st.integers(0, 3))] + a)
    script.append(['draws', draw(st.integers(0, 3))])
    return {'init': list(range(k)), 'script': script, 'keys': draw(st.sampled_from(['int', 'str', 'tuple'])), 'seed': draw(st.integers(0, 10 ** 6))}


PROP = Prop('C24', [Facet('history', case(), run, 5000), Facet('large', lcase(), run, 240)],
            'Histories of 1-30 operations (add, push, discard, remove, membership, random draw with and without removal, drain, set '
            'algebra, in-place algebra, comparison) on several sets of integers, strings or tuples, and shorter ones on sets of up to 250 elements. Oracle: python sets; every element '
            'must appear within 60 draws per element. Non-trivial: a random draw from at least two elements.',
            ['60 draws per element miss one with probability below 1e-24'])
