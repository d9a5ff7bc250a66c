"""C26: symbols and atomic numbers correspond one to one, vacancies are species number 0."""
from hypothesis import strategies as st
import gens as G
from engine import Facet, Prop, must

MASS = """H 1.008 He 4.0026 Li 6.94 Be 9.0122 B 10.81 C 12.011 N 14.007 O 15.999 F 18.998 Ne 20.180 Na 22.990 Mg 24.305 Al 26.982
Si 28.085 P 30.974 S 32.06 Cl 35.45 Ar 39.948 K 39.098 Ca 40.078 Sc 44.956 Ti 47.867 V 50.942 Cr 51.996 Mn 54.938 Fe 55.845
Co 58.933 Ni 58.693 Cu 63.546 Zn 65.38 Ga 69.723 Ge 72.630 As 74.922 Se 78.971 Br 79.904 Kr 83.798 Rb 85.468 Sr 87.62 Y 88.906
Zr 91.224 Nb 92.906 Mo 95.95 Tc 98.5 Ru 101.07 Rh 102.91 Pd 106.42 Ag 107.87 Cd 112.41 In 114.82 Sn 118.71 Sb 121.76 Te 127.60
I 126.90 Xe 131.29 Cs 132.91 Ba 137.33 Hf 178.49 Ta 180.95 W 183.84 Re 186.21 Os 190.23 Ir 192.22 Pt 195.08 Au 196.97 Hg 200.59
Tl 204.38 Pb 207.2 Bi 208.98 Po 209 At 210 Rn 222 Fr 223 Ra 226""".split()
MASS = dict(zip(MASS[::2], map(float, MASS[1::2])))
MASS['G'] = 0.0


def one():
    return st.sampled_from(G.ZS).flatmap(lambda z: st.tuples(st.sampled_from(['n', 's'] + (['g'] * 2 if z == 0 else [])), st.just([z, G.Z2S[z]])).map(list))


@st.composite
def case(draw):
    zs = draw(st.lists(st.sampled_from(G.ZS), min_size=1, max_size=8))
    ss = draw(st.lists(st.sampled_from(G.SYMBOLS), min_size=1, max_size=8))
    pairs = []
    for _ in range(draw(st.integers(1, 8))):
        a = draw(one())
        b = draw(one())
        if draw(st.integers(0, 2)) == 0:
            b = [draw(st.sampled_from(['n', 's'])), a[1]]
        pairs.append([a, b])
    return {'zs': zs, 'symbols': ss, 'pairs': pairs}


def run(w, case):
    r = w.call('elements', **case)
    for z, x in zip(case['zs'], r['num']):
        s = G.Z2S[z]
        must([x[0], x[1], x[2], x[3], x[4], x[5], x[7], x[8]] == [s, z, s, s, s, z, True, s], 'Z=%d gives %s, expected %s' % (z, x, s))
        must(abs(x[6] - MASS[s]) <= 0.006 * MASS[s], 'the mass of %s is %s' % (s, x[6]))
    for s, x in zip(case['symbols'], r['sym']):
        must(x[:2] == [s, G.S2Z[s]], '%s gives %s' % (s, x))
        must(abs(x[2] - MASS[s]) <= 0.006 * MASS[s], 'the mass of %s is %s' % (s, x[2]))
        must(x[3] >= 0, 'the radius of %s is %s' % (s, x[3]))
    for (a, b), x in zip(case['pairs'], r['eq']):
        e = a[1][0] == b[1][0]
        must(x[:2] == [a[1][0], b[1][0]] and x[2] == e and x[3] == (not e), 'species %s and %s compare %s' % (a, b, x))
        must(not x[4] and not x[5], 'a species equals a number or a string')
    must(r['ghost'] == ['G', 0, 0.0, True, True, True], 'the vacancy is %s' % r['ghost'])
    must(r['bad'] == ['refused'] * 4, 'unknown symbols were %s' % r['bad'])
    return len(set(case['zs'])) > 2, ['z%d' % len(set(case['zs']))]


FIXED = [{'zs': G.ZS, 'symbols': G.SYMBOLS, 'pairs': [[['n', [a, G.Z2S[a]]], ['s', [b, G.Z2S[b]]]] for a in G.ZS for b in G.ZS if a % 8 == k]} for k in range(8)]

PROP = Prop('C26', [Facet('table', case(), run, 800, fixed=FIXED)],
            'All 74 species of the table and all their pairs once completely, plus random subsets and pairs created from number, numpy integer or symbol, vacancies '
            'included. Oracle: own table of symbols, numbers and standard atomic weights (0.6%). Non-trivial: at least three '
            'species.', ['the table covers H-Ba, Hf-Ra and the vacancy'])
