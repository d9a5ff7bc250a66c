"""C16: sphere queries and atom removal act on exactly the atoms within the radius."""
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G
from props.c14 import geo_cell, relatives
from engine import Facet, Prop, must


@st.composite
def sparse(draw, k):
    c = draw(geo_cell(k if draw(st.integers(0, 19)) else 70))
    if draw(st.integers(0, 4)) == 0:               # a few atoms in a huge box
        c['lat'] = (np.array(c['lat']) * draw(st.sampled_from([3.0, 7.5, 20.0]))).tolist()
    return c


def radius(draw, c):
    k = draw(st.integers(0, 4))
    if k == 4 and len(c['num']) <= 12:             # just inside or outside of some distance between sites
        p = c['pos']
        d = dists(np.array(c['lat']), np.array(p), p[draw(st.integers(0, len(p) - 1))])
        r = max(1e-4, float(d[draw(st.integers(0, len(p) - 1))]) + draw(st.sampled_from([3e-5, -3e-5, 4e-4, -4e-4, 5e-3, -5e-3])))
    elif k == 0:                                     # relative to the size of the cell
        r = float(np.linalg.norm(c['lat'][draw(st.integers(0, 2))])) * draw(st.sampled_from([0.11, 0.23, 0.37, 0.49, 0.51, 0.68, 0.9, 1.3]))
    else:
        r = draw(st.sampled_from([0.001, 0.5, 1.0, 1.5, 2.0, 2.3, 2.7, 3.1, 3.6, 4.2, 5.0, 7.0, 12.0]))
    h = np.linalg.norm(np.linalg.inv(np.array(c['lat'])), axis=0)
    while np.prod(2 * np.floor(r * h + .5) + 1) > 15000:        # keep the number of cells reached bounded
        r *= 0.6
    return r


@st.composite
def center(draw, c):
    k = draw(st.integers(0, 3))
    if k < 2:
        i = draw(st.integers(0, len(c['num']) - 1))
        off = [0, 0, 0] if k == 0 else [draw(st.integers(-2, 2)) for _ in range(3)]
        return [float(x + o) for x, o in zip(c['pos'][i], off)]
    return [draw(st.integers(-150, 150)) / 100. for _ in range(3)]


@st.composite
def scase(draw):
    c = draw(sparse(9))
    q = []
    for _ in range(draw(st.integers(1, 4))):
        ele = draw(st.sampled_from([None, None] + sorted(set(c['num'])) + [77]))
        q.append([draw(center(c)), radius(draw, c), ele])
    return {'cell': c, 'queries': q}


def dists(L, p, x):
    return C.nearest_image_dist(L, x, p)


def clear(d, r):
    return bool((np.abs(d - r) > 1e-5).all())


def run_sphere(w, case):
    L, p, n = G.arrs(case['cell'])
    qs, want = [], []
    nt = False
    for x, r, e in case['queries']:
        d = dists(L, p, x)
        if not clear(d, r):
            continue
        qs.append([x, r, e])
        ins = [i for i in range(len(n)) if d[i] < r and (e is None or n[i] == e)]
        want.append(ins)
        nt = nt or 0 < len(ins) < len(n)
    if not qs:
        return False, ['tie']
    o = w.call('insphere', cell=case['cell'], queries=qs)
    must([[list(map(float, x)), z] for x, z in zip(p.tolist(), n.tolist())] == [[a, b] for a, b in o['after']], 'the query changed the cell')
    for q, got, ins in zip(qs, o['out'], want):
        must(sorted(g[0] for g in got) == ins, 'sphere of radius %s about %s%s: sites %s, expected %s' % (q[1], q[0], '' if q[2] is None else ' of Z=%d' % q[2],
                                                                                                     sorted(g[0] for g in got), ins))
        for i, pos, z in got:
            must(pos == p[i].tolist() and z == n[i], 'index %d is returned with the wrong site' % i)
    return nt, ['n%d' % len(qs)]


@st.composite
def ccase(draw):
    c = draw(sparse(10))
    kind = draw(st.sampled_from(['points', 'points', 'elem', 'elem', 'elem']))
    zs = sorted(set(c['num']))
    d = {'cell': c, 'kind': kind, 'r': radius(draw, c), 'ele': draw(st.sampled_from([None] + zs + zs + [77]))}
    if kind == 'points':
        d['centers'] = [draw(center(c)) for _ in range(draw(st.integers(1, 3)))]
    else:
        d['cen'] = draw(st.sampled_from(zs * 3 + [77]))
    return d


def run_clarify(w, case):
    L, p, n = G.arrs(case['cell'])
    cs = case['centers'] if case['kind'] == 'points' else p[n == case['cen']].tolist()
    gone = np.zeros(len(n), bool)
    for x in cs:
        d = dists(L, p, x)
        if not clear(d, case['r']):
            return False, ['tie']
        gone |= d < case['r']
    if case['ele'] is not None:
        gone &= n == case['ele']
    o = w.call('clarify', **case)
    want = [[p[i].tolist(), int(n[i])] for i in range(len(n)) if not gone[i]]
    must(np.allclose(o['lat'], L, atol=1e-12), 'the lattice changed')
    must(sorted(o['ret']) == sorted(want), 'after removing %s within %s of %s: %s, expected %s'
         % ('all atoms' if case['ele'] is None else 'Z=%d' % case['ele'], case['r'], cs if case['kind'] == 'points' else 'the Z=%d atoms' % case['cen'],
            o['ret'], want))
    must(o['ret'] == want, 'the remaining sites changed their order')
    return 0 < gone.sum() < len(n), [case['kind'], 'filtered' if case['ele'] is not None else 'all', 'removed%d' % min(3, gone.sum())]


@st.composite
def ucase(draw):
    d = draw(ccase())
    assume(len(d['cell']['num']) <= 12)
    return {'kind': d['kind'], 'args': [d['centers'] if d['kind'] == 'points' else d['cen'], d['r'], d['ele']],
            'cells': list(draw(relatives(d['cell'], draw(st.integers(1, 4)))))}


def run_reused(w, case):
    x, rad, e = case['args']
    want = []
    for c in case['cells']:
        L, p, n = G.arrs(c)
        if np.prod(2 * np.floor(rad * np.linalg.norm(np.linalg.inv(L), axis=0) + .5) + 1) > 15000:
            return False, ['wide']
        gone = np.zeros(len(n), bool)
        for y in x if case['kind'] == 'points' else p[n == x].tolist():
            d = dists(L, p, y)
            if not clear(d, rad):
                return False, ['tie']
            gone |= d < rad
        if e is not None:
            gone &= n == e
        want.append([[p[i].tolist(), int(n[i])] for i in range(len(n)) if not gone[i]])
    r = w.call('reuse', kind=case['kind'], args=case['args'], cells=case['cells'])
    must(r['one'] == want and r['new'] == want, 'one remover used on %d cells leaves %s, new ones %s, expected %s' % (len(want), r['one'], r['new'], want))
    return len({len(x) for x in want}) > 1, [case['kind']]


@st.composite
def ecase(draw):
    """one editable cell: queries and removals between edits"""
    c = draw(geo_cell(8))
    zs = sorted(set(c['num']))
    script = []
    for _ in range(draw(st.integers(1, 4))):
        x = draw(center(c))
        q = {'op': 'sphere', 'p': x, 'r': radius(draw, c), 'z': draw(st.sampled_from([None, None] + zs))}
        script.append(q)
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.sampled_from(['translate', 'translate', 'setpos', 'setele', 'append', 'pop', 'set', 'copy', 'clarify']))
            d = {'op': k, 'i': draw(st.integers(0, 7))}
            if k == 'translate':
                d['v'] = [draw(st.integers(-30, 30)) / 10. for _ in range(3)]
            elif k == 'setpos':
                d['p'] = [draw(st.integers(-20, 40)) / 20. for _ in range(3)]
            elif k == 'setele':
                d['z'] = draw(st.one_of(st.sampled_from(zs), G.elements()))
            elif k in ('append', 'set'):
                d['s'] = [[draw(st.integers(-20, 40)) / 20. for _ in range(3)], draw(st.sampled_from(zs)), 'specie']
            elif k == 'clarify':
                d.update(p=draw(center(c)), r=draw(st.sampled_from([0.5, 1.1, 1.9])), z=draw(st.sampled_from([None] + zs)), cen=draw(st.sampled_from([None] + zs)))
            script.append(d)
        if draw(st.integers(0, 3)):
            script.append(dict(q, c=0))
    return {'cell': c, 'script': [dict({'c': draw(st.integers(0, 2))}, **d) for d in script]}


def run_edited(w, case):
    L, p, n = G.arrs(case['cell'])
    cells = [[[list(x), int(z)] for x, z in zip(p.tolist(), n.tolist())]]
    script, want, seen = [], [], []
    judged = edits = 0
    for d in case['script']:
        m = cells[d['c'] % len(cells)]
        op = d['op']
        if op in ('translate', 'setpos', 'setele', 'set', 'pop'):
            if not m:
                continue
            d = dict(d, i=d['i'] % len(m))
            x = m[d['i']]
        e = None
        if op == 'sphere' or op == 'clarify':
            cs = [d['p']] if op == 'sphere' or d['cen'] is None else [y[0] for y in m if y[1] == d['cen']]
            ds = [dists(L, np.array([y[0] for y in m]), y) for y in cs] if m else []
            if not all(clear(t, d['r']) for t in ds):
                continue
            hit = [i for i, y in enumerate(m) if any(t[i] < d['r'] for t in ds) and d['z'] in (None, y[1])]
            if op == 'sphere':
                e = [[i] + [list(m[i][0]), m[i][1]] for i in hit]
                judged += bool(hit) and len(hit) < len(m) and edits > 0
            else:
                m[:] = [y for i, y in enumerate(m) if i not in hit]
                edits += 1
        elif op == 'translate':
            x[0] = (np.array(x[0]) + np.array(d['v']) @ np.linalg.inv(L)).tolist()
        elif op == 'setpos':
            x[0] = list(d['p'])
        elif op == 'setele':
            x[1] = d['z']
        elif op == 'append':
            m.append([list(d['s'][0]), d['s'][1]])
        elif op == 'set':
            m[d['i']] = [list(d['s'][0]), d['s'][1]]
        elif op == 'pop':
            m.pop(d['i'])
        else:
            cells.append([[list(y[0]), y[1]] for y in m])
        edits += op not in ('sphere', 'copy', 'clarify')
        script.append(d)
        want.append((e, [[[list(y[0]), y[1]] for y in q] for q in cells]))

    def same(a, b):
        return len(a) == len(b) and all(u[-1] == v[-1] and u[:-2] == v[:-2] and np.allclose(u[-2], v[-2], atol=1e-8) for u, v in zip(a, b))
    for k, (d, (e, cs), (res, got, _)) in enumerate(zip(script, want, w.call('modcell', cell=case['cell'], script=script)['trace'])):
        must(not isinstance(res, str), 'step %d (%s) of %s: %s' % (k, d['op'], [t['op'] for t in script], res))
        must(len(got) == len(cs) and all(same(a, b) for a, b in zip(got, cs)), 'after step %d (%s) of %s: %s, expected %s' % (k, d, [t['op'] for t in script], got, cs))
        if e is not None:
            must(same(res, e), 'step %d of %s: sphere of radius %s about %s holds %s, expected %s' % (k, [t['op'] for t in script], d['r'], d['p'], res, e))
    return judged > 0, ['edits%d' % min(edits, 6)]


def run_bad(w, case):
    o = w.call('clarify_bad', cell=case)
    must(o == ['ValueError', 'ValueError'], 'a cell that cannot be edited was %s' % o)
    return True, []


PROP = Prop('C16', [Facet('sphere', scase(), run_sphere, 1100), Facet('removal', ccase(), run_clarify, 1100), Facet('reused', ucase(), run_reused, 400), Facet('edited', ecase(), run_edited, 600), Facet('type', geo_cell(4), run_bad, 24)],
            'Cells as in C14; centres on sites, on images of sites and anywhere; boxes up to 140 Angstrom wide, up to 70 sites; radii 0.001-12 Angstrom and fractions of the cell; element filters incl. absent '
            'ones; removal around given points and around every atom of an element, also with one remover on several related cells, and between edits of one cell and its copies. Oracle: distance to the nearest image by '
            'exhaustive search in a reduced cell. Non-trivial: some but not all sites are hit.',
            ['no site within 1e-5 Angstrom of the radius'])
