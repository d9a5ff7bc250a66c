"""C10: a cell is its atoms: independent of the order they are given in, with consistent derived data."""
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G
from engine import Facet, Prop, must


def off_boundary(p):
    """coordinates clearly inside one bin of the 1/1000 grid, so that a round-off of x+1-1 cannot move them"""
    f = (np.array(p) * 1000) % 1.0
    return bool((np.abs(f - 0.5) > 0.01).all())


def bins(p):
    return [tuple((np.rint(np.array(x) * 1000).astype(int) % 1000).tolist()) for x in p]


@st.composite
def case(draw):
    c = draw(G.crystals(14) if draw(st.integers(0, 11)) else G.crystals(90, min_atoms=30))
    n = len(c['num'])
    if draw(st.booleans()):              # given in the canonical order already
        k = sorted(range(n), key=lambda i: [round(round(x, 3) % 1, 3) for x in c['pos'][i]])
        c['pos'], c['num'] = [c['pos'][i] for i in k], [c['num'][i] for i in k]
    c2 = draw(st.permutations(list(range(n))))
    wrap = draw(st.lists(st.integers(-2, 2), min_size=3 * n, max_size=3 * n)) if draw(st.booleans()) else None
    present = sorted(set(c['num']))
    ele = draw(st.sampled_from(present * 2 + [77, 0]))
    setnum = None
    if draw(st.integers(0, 2)) == 0:
        z = draw(G.distinct_elements(2))
        setnum = draw(st.lists(st.sampled_from(z), min_size=n, max_size=n))
    return {'cell': c, 'perm': list(c2), 'wrap': wrap, 'ele': ele, 'setnum': setnum, 'warm': draw(st.booleans())}


def formula(num):
    return ''.join('%s%d' % (G.Z2S[z], num.count(z)) for z in sorted(set(num)) if z)


def views(v, L, num, ele, what):
    c = v['cell']
    must(np.allclose(c['lat'], L, atol=1e-12), what + 'the lattice changed')
    must(v['spg'] == c, what + 'spg_cell is not the cell itself: %s' % v['spg'])
    must(v['count'] == len(num), what + 'num_count %d' % v['count'])
    must(v['comment'] == formula(list(c['num'])), what + 'comment %s for %s' % (v['comment'], c['num']))
    must(np.allclose(v['cart'], np.array(c['pos']) @ np.array(L), atol=1e-8), what + 'cartesian coordinates')
    k = [i for i, z in enumerate(c['num']) if z == ele]
    must(v['speckle'] == len(k), what + 'get_speckle_num(Z=%d) is %d of %s' % (ele, v['speckle'], c['num']))
    must(len(v['ele_cart']) == len(k) and np.allclose(np.array(v['ele_cart']).reshape(-1, 3), (np.array(c['pos'])[k] @ np.array(L)).reshape(-1, 3), atol=1e-8),
         what + 'cartesian coordinates of Z=%d' % ele)


def run(w, case):
    c = case['cell']
    L, p, n = G.arrs(c)
    a = w.call('gcell', lat=c['lat'], pos=c['pos'], num=c['num'], ele=case['ele'], setnum=case['setnum'], warm=case['warm'])
    must(a['input_kept'], 'the arrays given were modified')
    va = a['view']
    ca = va['cell']
    views(va, L, c['num'], case['ele'], '')
    # same atoms, each with its element
    must(sorted(zip(map(tuple, ca['pos']), ca['num'])) == sorted(zip(map(tuple, c['pos']), c['num'])), 'the atoms of the cell are not those given')
    # order independence
    q = [c['pos'][i] for i in case['perm']]
    m = [c['num'][i] for i in case['perm']]
    distinct = len(set(bins(c['pos']))) == len(c['pos'])
    lab = ['atoms%d' % min(len(n), 8)]
    nt = False
    if distinct:
        b = w.call('gcell', lat=c['lat'], pos=q, num=m, ele=case['ele'])['view']
        must(b['cell'] == ca, 'the same atoms in another order give another cell: %s and %s' % (ca, b['cell']))
        must(b['id'] == va['id'], 'the id depends on the order of the atoms')
        nt = case['perm'] != sorted(case['perm'])
        if case['wrap'] and off_boundary(c['pos']):
            pw = (np.array(q) + np.array(case['wrap']).reshape(-1, 3)).tolist()
            b = w.call('gcell', lat=c['lat'], pos=pw, num=m, ele=case['ele'])['view']
            must(b['cell']['num'] == ca['num'] and b['id'] == va['id'], 'translating atoms by lattice vectors changed the order or id')
            must(C.match(np.array(ca['pos']), np.array(b['cell']['pos']), L, 1e-6).tolist() == list(range(len(n))), 'sites moved')
            lab.append('wrapped')
    if case['setnum'] is not None:
        v2 = a['view2']
        must(a['set_kept'], 'assigning numbers changed an array given or handed out before')
        must(v2['cell']['num'] == case['setnum'] and v2['cell']['pos'] == ca['pos'], 'assigning numbers: %s' % v2['cell'])
        views(v2, L, case['setnum'], case['ele'], 'after assigning numbers: ')
        must((v2['id'] == va['id']) == (case['setnum'] == ca['num']), 'id equality does not follow the occupation')
        must(a['sg2'] == a['sg_fresh'], 'after assigning numbers the space group is %s, of a fresh cell %s' % (a['sg2'], a['sg_fresh']))
        must(not a['differs'], 'after assigning numbers these are not those of a new cell with the same atoms: %s' % a['differs'])
        if G.unambiguous(v2['cell']):
            want = set(C.perm_set(G.group(v2['cell'])))
            must({tuple(x) for x in a['perms2']} == want, 'after assigning numbers the symmetry is that of another occupation')
            must(a['prim2'] == C.is_primitive(*G.arrs(v2['cell']), tol=G.TOL), 'is_primitive after assigning numbers')
        lab.append('assigned')
    return nt, lab


PROP = Prop('C10', [Facet('cell', case(), run, 1800)],
            'Crystals (1-14 sites, sometimes up to 90, dressed as in C04); the same atoms given in a random order, with random lattice translations; '
            'random new occupation assigned. Oracle: own formula, cartesian transformation, multiset of atoms, symmetry search. '
            'Non-trivial: a non-identity reordering of sites that are distinct at 0.001 resolution.',
            ['canonical order is claimed for sites whose coordinates differ at the 0.001 level'])
