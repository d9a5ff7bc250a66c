"""C15: the space-group restriction accepts exactly the listed space groups."""
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G
from props.c14 import relatives
from engine import Facet, Prop, must


@st.composite
def case(draw):
    c = draw(G.crystals_ok(10))
    lists = []
    for _ in range(draw(st.integers(1, 5))):
        own = draw(st.booleans())
        rest = draw(st.lists(st.one_of(st.integers(1, 230), st.sampled_from(['own+1', 'own-1', 'own+10', 'own+100', 'own-100'])), max_size=5))
        k = draw(st.integers(0, len(rest)))
        l = rest[:k] + (['own'] if own else []) + rest[k:]
        lists.append(l)
    d = {'cell': c, 'lists': lists}
    U = np.array(draw(st.sampled_from(G.UNI)))
    L, p, n = G.arrs(c)
    s = np.array([draw(st.integers(0, 9)) / 10. for _ in range(3)])
    d['other'] = G.cell(U @ L, p @ np.linalg.inv(U) + s, n)
    return d


# symbol letters that could be mistaken for the number: hand-checked groups of the prototypes
KNOWN = {'sc': 221, 'bcc': 229, 'fcc': 225, 'bcc_conv': 229, 'fcc_conv': 225, 'diamond': 227, 'zincblende': 216, 'rocksalt': 225,
         'cscl': 221, 'fluorite': 225, 'perovskite': 221, 'heusler': 216, 'hcp': 194, 'wurtzite': 186, 'hex': 191, 'triflat': 191,
         'graphene': 191, 'bn': 187, 'cdi2': 164, 'rutile': 136, 'tetra': 123, 'l10': 123, 'ortho': 47, 'mono': 10, 'tric': 2,
         'rhombo': 166}


def run(w, case):
    r = w.call('spgrestrict', cell=case['cell'], lists=case['lists'])
    must(r['after'] == r['cell'], 'the structure was changed')
    for l, a in zip(r['lists'], r['ok']):
        must(a == (r['number'] in l), 'space group %d, restriction to %s says %s' % (r['number'], l, a))
    q = w.call('spgrestrict', cell=case['other'], lists=r['lists'])
    must(q['number'] != r['number'] or q['ok'] == r['ok'], 'the same crystal in another cell is judged differently')
    nt = any(r['number'] in l for l in r['lists']) and any(r['number'] not in l and l for l in r['lists'])
    return nt, ['sg%d' % r['number']]


@st.composite
def kcase(draw):
    name = draw(st.sampled_from(sorted(KNOWN)))
    L0, p0, cls = G.PROTO[name]
    spec = draw(G.distinct_elements(max(cls) + 1))
    base = st.just((np.array(L0, float) * draw(G.lengths), np.array(p0, float), np.array([spec[k] for k in cls])))
    c = draw(G.dressed(base, recolor=False, digits=False))
    wrong = draw(st.lists(st.integers(1, 230).filter(lambda x: x != KNOWN[name]), max_size=6))
    return {'cell': c, 'name': name, 'wrong': wrong, 'H': draw(G.hnf(3))}


def run_known(w, case):
    k = KNOWN[case['name']]
    L, p, n = G.arrs(case['cell'])
    for c in (case['cell'], G.cell(*G.expand(L, p, n, case['H']))):
        r = w.call('spgrestrict', cell=c, lists=[[k], case['wrong'], case['wrong'] + [k], [], list(range(1, 231)), [x for x in range(1, 231) if x != k]])
        must(r['ok'] == [True, False, True, False, True, False], '%s has space group %d; the restrictions [%d], %s, ... say %s'
             % (case['name'], k, k, case['wrong'], r['ok']))
    return True, [case['name']]


@st.composite
def ucase(draw):
    c = draw(G.crystals_ok(8))
    cells = [x for x in draw(relatives(c, draw(st.integers(1, 6)))) if G.unambiguous(x)]
    return {'cells': cells or [c], 'k': draw(st.integers(0, 10)), 'wrong': draw(st.lists(st.integers(1, 230), max_size=3))}


def run_reused(w, case):
    cells = case['cells']
    num = [w.call('spgrestrict', cell=c, lists=[])['number'] for c in cells]
    l = case['wrong'] + [num[case['k'] % len(num)]]
    want = [x in l for x in num]
    r = w.call('reuse', kind='spg', args=l, cells=cells)
    must(r['one'] == want and r['new'] == want, 'one restriction to %s asked about cells of space groups %s: %s, new ones %s' % (l, num, r['one'], r['new']))
    return len(set(want)) > 1, ['cells%d' % len(want)]


PROP = Prop('C15', [Facet('lists', case(), run, 900), Facet('known_groups', kcase(), run_known, 500),
                    Facet('reused', ucase(), run_reused, 240)],
            'Crystals as in C04 (symmetry the same at 0.00015 and 0.06 Angstrom), lists of 0-6 numbers with and without the own '
            'group and near misses; 26 prototype crystals whose group is known from the tables, in random cells and supercells; one restriction asked about several related cells. '
            'Oracle: number from the spglib dataset (the code goes through the international symbol), table numbers, same answer '
            'for the same crystal in another cell. Non-trivial: an accepting and a rejecting list (known groups: all).',
            ['spglib (the library, not the code here) finds the right space group'])
