"""C11: POSCAR files carry the crystal, written and read."""
import math
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G, texts as T
from engine import Facet, Prop, must


def noghost(c):
    L, p, n = G.arrs(c)
    k = n != 0
    return L, p[k], n[k]


@st.composite
def iocell(draw, max_atoms=12, ghost=True):
    c = draw(G.crystals(max_atoms if draw(st.integers(0, 19)) else 130, ghost=ghost))
    k = draw(st.integers(0, 4))
    if k == 4:                                     # large or negative entries need all the columns
        s = draw(st.sampled_from([37.5, 123.25]))
        c['lat'] = (np.array(c['lat']) * s).tolist()
    if k in (3, 4):
        c['lat'] = (np.array(c['lat']) * -1).tolist()
    if ghost and len(c['num']) > 1 and draw(st.integers(0, 2)) == 0:
        for i in draw(st.lists(st.integers(0, len(c['num']) - 1), min_size=1, max_size=3)):
            c['num'][i] = 0
    if draw(st.integers(0, 3)) == 0:               # coordinates at the edges of the cell
        for _ in range(draw(st.integers(1, 4))):
            c['pos'][draw(st.integers(0, len(c['num']) - 1))][draw(st.integers(0, 2))] = draw(st.sampled_from([0.99996, 0.9999994, 0.9999996, 0.99949, 0.9996, -0.00004, -0.0000004, 1.00002, 0.00004, 0.0004, -0.5, -1.00001, 1.5]))
    assume(any(c['num']))
    assume(C.match(np.array(c['pos']), np.array(c['pos']), np.array(c['lat']), 1e-6) is not None)
    assume(len(set(tuple(np.round(np.array(x) % 1, 3) % 1) for x in c['pos'])) == len(c['num']))
    return c


@st.composite
def wcase(draw):
    return {'cell': draw(iocell()), 'module': draw(st.sampled_from(['io', 'stru'])), 'direct': draw(st.sampled_from([None, True, False, False])),
            'zoom': draw(st.sampled_from([None, 1, 1.0, 2, 0.5, 3.25])), 'how': draw(st.sampled_from(['string', 'string', 'str', 'repr', 'file'])),
            'first': draw(st.lists(st.sampled_from([None, True, False, False]), max_size=2)) if draw(st.booleans()) else []}


def match_cell(L, p, n, out, what, ltol, ptol):
    """the structure `out` is (L,p,n), sites in any order; ltol: lattice entry error, ptol: fractional error"""
    must(np.abs(np.array(out['lat']) - L).max() <= ltol, '%s: lattice %s, expected %s' % (what, np.array(out['lat']).tolist(), L.tolist()))
    must(len(out['num']) == len(n), '%s: %d atoms, expected %d' % (what, len(out['num']), len(n)))
    q = np.array(out['pos']).reshape(-1, 3)
    d = p[:, None, :] - q[None]
    d = np.abs(d - np.rint(d)).max(-1)
    m = d.argmin(1)
    must(len(set(m.tolist())) == len(m) and d[np.arange(len(m)), m].max() <= ptol, '%s: the atoms are at %s, expected %s' % (what, q.tolist(), p.tolist()))
    must([out['num'][j] for j in m] == n.tolist(), '%s: elements %s, expected %s' % (what, [out['num'][j] for j in m], n.tolist()))


def run_write(w, case):
    direct = case['direct'] if case['how'] == 'string' else None
    r = w.call('poscar_write', cell=case['cell'], module=case['module'], direct=direct, zoom=case['zoom'], how=case['how'], first=case['first'])
    must(r['after'] == r['cell'], 'writing changed the cell')
    d = T.parse_poscar(r['text'])
    L, p, n = noghost(case['cell'])
    z = 1 if case['zoom'] is None else case['zoom']
    must(d['zoom'] == z, 'scale line %s, asked for %s' % (d['zoom'], z))
    must((d['mode'] == 'd') == (direct is not False), 'mode line %s' % d['mode'])
    d['lat'] = d['rawlat']
    # cartesian coordinates carry 6 decimals; as fractions they are off by that times the reciprocal vectors
    tol = 6e-7 if direct is not False else 6e-7 * np.abs(np.linalg.inv(L)).sum(0).max() * 1.05 + 1e-6 * np.abs(np.linalg.inv(L)).sum() * 3 + 1e-7
    match_cell(L, p, n, d, 'the POSCAR written', 6e-7, tol)
    must(len(set(d['syms'])) == len(d['syms']), 'an element has two blocks')
    f = ''.join('%s%d' % (G.Z2S[x], n.tolist().count(x)) for x in sorted(set(n.tolist())))
    must(d['comment'] == f, 'comment line %r, the composition is %s' % (d['comment'], f))
    g = 0 in case['cell']['num']
    return len(set(n.tolist())) > 1 or g or direct is False, [case['module'], case['how'], 'cartesian' if direct is False else 'direct'] + (['ghosts'] if g else [])


@st.composite
def rcase(draw):
    c = draw(iocell(ghost=False))
    zs = sorted(set(c['num']))
    order = list(draw(st.permutations(zs)))
    if draw(st.integers(0, 3)) == 0:               # an element in two blocks
        z = draw(st.sampled_from(zs))
        if c['num'].count(z) > 1:
            order.insert(draw(st.integers(0, len(order))), z)
    mode = draw(st.sampled_from(['direct', 'Direct', 'D', 'd', 'Cartesian', 'cartesian', 'C', 'Kart', 'k', ' Cartesian', 'Direct configuration=']))
    zoom = draw(st.sampled_from([1, 1, 1.0, 2, 0.5, 3.25, -1.0]))
    if zoom < 0:
        zoom = -float(draw(st.sampled_from([40, 100.5, 333])))
    style = {'sep': draw(st.sampled_from([' ', '  ', '\t'])), 'ind': draw(st.sampled_from(['', ' ', '   '])),
             'fmt': draw(st.sampled_from(['%.6f', '%.10f', '%12.8f', '%.5f'])), 'gzoom': draw(st.booleans()),
             'end': draw(st.sampled_from(['\n', '', '\n\n', '\n \n']))}
    return {'cell': c, 'order': list(order), 'mode': mode, 'zoom': zoom, 'style': style, 'comment': draw(st.sampled_from(['c', 'Ga2 As2', '1.0 is not a scale', 'direct'])),
            'tags': draw(st.booleans()), 'how': draw(st.sampled_from(['class', 'general', 'string', 'fmt'])),
            'name': draw(st.sampled_from(['POSCAR', 'x.vasp', 'POSCAR_1', 'a.VASP', 'myPOSCAR.txt']))}


def run_read(w, case):
    L, p, n = G.arrs(case['cell'])
    z = case['zoom']
    s = z if z > 0 else (-z / abs(np.linalg.det(L))) ** (1 / 3.)
    text = T.make_poscar(L, p, n, case['order'], z, case['mode'], case['comment'], case['style'], case['tags'])
    name = 'case.dat' if case['how'] == 'fmt' else case['name']
    r = w.call('poscar_read', text=text, how=case['how'], name=name)
    must(r['same'], 'reading changed the file')
    cart = case['mode'].strip()[0] in 'cCkK'
    # the reader keeps 4 decimals of every number in the file
    ltol = 7e-5 * s if z > 0 else 7e-5 * s + 2.5e-4 * s * np.abs(np.linalg.inv(L)).sum() * np.abs(L).max()
    Li = np.abs(np.linalg.inv(L))
    ptol = 7e-5 if not cart else 7e-5 * Li.sum(0).max() + 7e-5 * 3 * Li.sum() + 1e-6
    match_cell(L * s, p, n, r['cell'], 'POSCAR read (%s, scale %s)' % (case['mode'], z), ltol, ptol)
    return len(set(n.tolist())) > 1 or cart or z != 1, ['cart' if cart else 'direct', 'vol' if z < 0 else ('scaled' if z != 1 else 'unscaled'), case['how']]


def run_round(w, case):
    r = w.call('poscar_write', cell=case['cell'], module=case['module'], direct=case['direct'], zoom=case['zoom'], how='string')
    q = w.call('poscar_read', text=r['text'], how='class')
    L, p, n = noghost(case['cell'])
    z = 1 if case['zoom'] is None else case['zoom']
    Li = np.abs(np.linalg.inv(L))
    ptol = 7e-5 if case['direct'] is not False else 7e-5 * Li.sum(0).max() + 7e-5 * 3 * Li.sum() + 1e-6
    match_cell(L * z, p, n, q['cell'], 'POSCAR written and read back', 7e-5 * max(1, z), ptol)
    return len(n) > 1, [case['module']]


PROP = Prop('C11', [Facet('write', wcase(), run_write, 1400), Facet('read', rcase(), run_read, 1600), Facet('roundtrip', wcase(), run_round, 600)],
            'Crystals (1-12 sites, with vacancies when writing, small to 120-fold and left-handed lattices, unwrapped positions); both '
            'writers, direct and cartesian, several scales; read: block order, elements in two blocks, coordinates at the edges of the cell, mode keyword spellings, positive scale or volume, '
            'spacing, digits, trailing blanks, element tags, by class, by name, by format. Oracle: own strict POSCAR reader and '
            'writer, sites matched modulo the lattice within the precision of the format (6 decimals written, 4 kept when '
            'reading). Non-trivial: several elements, vacancies, cartesian mode or a scale.',
            ['VASP 5 files without selective dynamics, velocities or an empty comment line',
             'sites differ at the 0.001 level'])
