"""C08: supercells reproduce the crystal."""
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G
from engine import Facet, Prop, must


@st.composite
def case(draw):
    c = draw(G.crystals(6))
    via = draw(st.sampled_from(['supercell', 'superlattice']))
    kind = draw(st.sampled_from(['hnf', 'diag', 'tri', 'skew'] if via == 'supercell' else ['hnf', 'hnf', 'diag']))
    if kind == 'hnf':
        H = draw(G.hnf(8))
    elif kind == 'diag':
        d = [draw(st.integers(1, 4)) for _ in range(3)]
        H = [[d[0], 0, 0], [0, d[1], 0], [0, 0, d[2]]]
    elif kind == 'skew':               # far from reduced: small diagonal, large entries beside it
        d = [draw(st.integers(1, 2)) for _ in range(3)]
        o = [draw(st.sampled_from([0, 1, 4, 7, 9, 10, 11])) for _ in range(3)]
        H = [[d[0], o[0], o[1]], [0, d[1], o[2]], [0, 0, d[2]]]
    else:
        d = [draw(st.integers(1, 3)) for _ in range(3)]
        H = [[d[0], draw(st.integers(0, 3)), draw(st.integers(0, 3))], [0, d[1], draw(st.integers(0, 3))], [0, 0, d[2]]]
    return {'cell': c, 'mat': H, 'via': via, 'again': draw(G.hnf(3)) if draw(st.integers(0, 3)) == 0 else None,
            'first': draw(st.lists(G.hnf(8, int(np.prod(np.diag(H))) if np.prod(np.diag(H)) <= 8 else None), max_size=2)) if draw(st.integers(0, 2)) == 0 else []}


def match_frac(a, b, tol=1e-7):
    """sites matched modulo 1 by their fractions (very skewed cells: the nearest image is not needed)"""
    if a.shape != b.shape:
        return None
    d = a[:, None] - b[None]
    d = np.abs(d - np.rint(d)).max(-1)
    m = d.argmin(1)
    return m if d[np.arange(len(m)), m].max() <= tol and len(set(m.tolist())) == len(m) else None


def judge(src, H, out, comment, count, what):
    L, p, n = G.arrs(src)
    eL, ep, en = G.expand(L, p, n, H)
    must(np.allclose(out['lat'], eL, atol=1e-7), '%s: lattice %s, expected %s' % (what, out['lat'], eL.tolist()))
    must(len(out['num']) == len(en) == count, '%s: %d sites (num_count %d), expected %d' % (what, len(out['num']), count, len(en)))
    m = match_frac(ep, np.array(out['pos']))
    must(m is not None, '%s: the sites are not those of the repeated crystal' % what)
    must([out['num'][j] for j in m] == en.tolist(), '%s: some atom has another element than in the crystal' % what)


def run(w, case):
    r = w.call('supercell', cell=case['cell'], mat=case['mat'], via=case['via'], first=case['first'])
    must(r['after'] == r['cell'], 'the original cell changed')
    what = '%s %s' % (case['via'], case['mat'])
    judge(case['cell'], case['mat'], r['out'], r['comment'], r['count'], what)
    if case['again'] and len(r['out']['num']) * np.prod(np.diag(case['again'])) <= 150:
        q = w.call('supercell', cell=r['out'], mat=case['again'], via='supercell')
        judge(case['cell'], (np.array(case['again']) @ np.array(case['mat'])).tolist(), q['out'], q['comment'], q['count'],
              'supercell %s of the supercell' % case['again'])
    H = np.array(case['mat'])
    nd = bool((H - np.diag(np.diag(H))).any())
    k = int(np.prod(np.diag(H)))
    return k > 1 and len(case['cell']['num']) > 0, [case['via'], 'skew' if nd else 'diag', 'mixed' if len(set(case['cell']['num'])) > 1 else 'one_element']


PROP = Prop('C08', [Facet('supercell', case(), run, 2600)],
            'Crystals (1-6 sites, dressed as in C04, any symmetry) x Hermite matrices of index up to 8, diagonal scalings up to '
            '4x4x4, upper triangular non-negative matrices; a quarter followed by a second supercell, a third after other supercells of the same object. Oracle: own exact '
            'integer enumeration of the lattice points in the new cell, sites matched modulo the new lattice. Non-trivial: '
            'index greater than one.',
            ['scaling matrices are upper triangular with non-negative entries, as produced by the superlattice generator and the CLI'])
