"""C02: two-species (ternary) substitution enumerates exactly one structure per symmetry class."""
import math
from hypothesis import strategies as st, assume
import gens as G, occ
from engine import Facet, Prop, must

MAXCOMB = 4000


@st.composite
def case(draw, large=False):
    c = draw(G.crystals_ok(30, min_atoms=14, nudge=False) if large else G.crystals_ok(12, min_atoms=4))
    MAXC = 900 if large else MAXCOMB
    assume(not large or len(c['num']) > 12)
    N = len(c['num'])
    present = sorted(set(c['num']))
    calls = []
    for _ in range(draw(st.integers(1, 1 if large else 2))):
        a = {}
        a['ele'] = draw(st.sampled_from([None, None] + present * 2 + [77]))
        m = N if a['ele'] is None else c['num'].count(a['ele'])
        pool = G.new_species(present)
        a['sp'], a['sp2'] = draw(pool), draw(pool)
        ok = [(i, j) for i in range(m + 2) for j in range(m + 2) if math.comb(m, i) * max(1, math.comb(max(m - i, 0), j)) <= MAXC]
        big = [(i, j) for i, j in ok if i and j and i + j <= m] or ok
        a['n'], a['n2'] = G.skewed(draw, big, ok)
        calls.append(['tri', a])
    return {'cell': c, 'calls': calls, 'mixed': len(calls) > 1 and draw(st.booleans())}


def run(w, case):
    r = w.call('occ', cell=case['cell'], calls=case['calls'], mixed=case['mixed'])
    init = r['cell']
    must(r['after'] == init, 'enumerating changed the initial cell')
    perms = occ.perms_of(init)
    labels, nt = [], False
    for (kind, a), out in zip(case['calls'], r['outs']):
        what = 'ternary %dxZ%d + %dxZ%d%s' % (a['n'], a['sp'], a['n2'], a['sp2'],
                                             '' if a['ele'] is None else ' on Z=%d' % a['ele'])
        el = [i for i, z in enumerate(init['num']) if a['ele'] is None or z == a['ele']]
        allowed = occ.labelings2(init['num'], el, a['n'], a['sp'], a['n2'], a['sp2'])
        got = occ.unpack(init, out, what)
        k = occ.judge(perms, init['num'], allowed, got, what)
        labels.append('all_sites' if a['ele'] is None else 'one_element')
        if a['sp'] == a['sp2']:
            labels.append('same_species_twice')
        if a['n'] + a['n2'] > len(el):
            labels.append('too_many')
        if 0 in (a['n'], a['n2']):
            labels.append('zero_of_one')
        if a['n'] != a['n2'] and a['n'] and a['n2']:
            labels.append('unequal_counts')
        if len(allowed) > k >= 2:
            nt = True
            labels.append('merge')
    return nt, labels


PROP = Prop('C02', [Facet('enumeration', case(), run, 1300), Facet('large', case(large=True), run, 80)],
            'Crystals as in C04 (up to 12 sites; large: 13-30 sites and one or two atoms); counts (n1, n2) including zero and more than there are sites; species '
            'may coincide with each other or with one present; all sites or the sites of one element. Oracle: brute-force '
            'set of substitutions and its orbits under the independently found symmetry group. Non-trivial: at least '
            'two classes and a symmetry duplicate to merge.',
            ['crystals whose symmetry is the same at 0.00015 and 0.06 Angstrom (nearly symmetric ones, off by 0.015-0.03 Angstrom or 0.5-1 percent: 0.00015 and 0.01)'])
