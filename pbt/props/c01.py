"""C01: single-species substitution enumerates exactly one structure per symmetry class."""
import math
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G, occ
from engine import Facet, Prop, must

MAXCOMB = 3500


@st.composite
def case(draw, large=False):
    c = draw(G.crystals_ok(64, min_atoms=18, nudge=False) if large else G.crystals_ok(14, min_atoms=5))
    MAXC = 800 if large else MAXCOMB
    assume(not large or len(c['num']) > 14)
    N = len(c['num'])
    present = sorted(set(c['num']))
    calls = []
    for _ in range(draw(st.integers(1, 1 if large else 3))):
        kind = draw(st.sampled_from(['unitary', 'unitary', 'ele', 'wy']))
        z = draw(G.new_species(present))
        a = {'sp': z}
        m = N
        if kind == 'ele':
            a['ele'] = draw(st.sampled_from(present * 4 + [77]))
            m = c['num'].count(a['ele'])
        elif kind == 'wy':
            a['wy_site'] = draw(st.integers(0, N - 1))
        ok = [k for k in range(0, m + 3) if math.comb(m, k) <= MAXC]
        big = [k for k in ok if 1 < k < m] or ok
        a['n'] = G.skewed(draw, big, ok)
        calls.append([kind, a])
    return {'cell': c, 'calls': calls, 'mixed': len(calls) > 1 and draw(st.booleans())}


def eligible(init, wy, kind, a):
    N = len(init['num'])
    if kind == 'ele':
        return [i for i in range(N) if init['num'][i] == a['ele']]
    if kind == 'wy':
        l = wy[a['wy_site'] % N]
        return [i for i in range(N) if wy[i] == l]
    return list(range(N))


def run(w, case):
    r = w.call('occ', cell=case['cell'], calls=case['calls'], mixed=case['mixed'])
    init = r['cell']
    must(r['after'] == init, 'enumerating changed the initial cell')
    perms = occ.perms_of(init)
    labels = []
    nt = False
    for (kind, a), out in zip(case['calls'], r['outs']):
        what = '%s n=%d Z=%d%s' % (kind, a['n'], a['sp'], ' of Z=%d' % a['ele'] if kind == 'ele' else '')
        el = eligible(init, r['wyckoffs'], kind, a)
        allowed = occ.labelings(init['num'], el, a['n'], a['sp'])
        got = occ.unpack(init, out, what)
        k = occ.judge(perms, init['num'], allowed, got, what)
        labels.append(kind)
        if a['n'] == 0:
            labels.append('n0')
        elif a['n'] > len(el):
            labels.append('n>eligible')
        elif a['n'] == len(el):
            labels.append('all_sites')
        if a['sp'] in init['num']:
            labels.append('species_present')
        if len(allowed) > k >= 2:
            nt = True
            labels.append('merge')
    if len(case['calls']) > 1:
        labels.append('read_in_turn' if case['mixed'] else 'several_on_one_generator')
    return nt, labels


PROP = Prop('C01', [Facet('enumeration', case(), run, 1500), Facet('large', case(large=True), run, 100)],
            'Crystals as in C04 (up to 14 sites; large: 15-64 sites and few atoms), one to three enumerations on one generator object, read one after the other or in turn: whole cell, one '
            'element, or one Wyckoff letter; n from 0 to eligible+2 (at most %d combinations); species may already be '
            'present or be the vacancy. Oracle: brute-force set of substitutions and its orbits under the '
            'independently found symmetry group. Non-trivial: at least two classes and at least one symmetry '
            'duplicate to merge.' % MAXCOMB,
            ['crystals whose symmetry is the same at 0.00015 and 0.06 Angstrom (nearly symmetric ones, off by 0.015-0.03 Angstrom or 0.5-1 percent: 0.00015 and 0.01)',
             'Wyckoff letters are taken from spglib directly'])
