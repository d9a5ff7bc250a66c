"""C17: an editable cell behaves as a sequence of sites through every history of edits."""
import copy
import numpy as np
from hypothesis import strategies as st, assume
import crystal as C, gens as G
from props.c14 import geo_cell
from props.c16 import dists
from engine import Facet, Prop, must


@st.composite
def site(draw, c):
    k = draw(st.integers(0, 2))
    if k == 0:
        p = c['pos'][draw(st.integers(0, len(c['num']) - 1))]
    else:
        p = [draw(st.integers(-20, 40)) / 20. for _ in range(3)]
    z = draw(st.one_of(st.sampled_from(c['num']), G.elements()))
    return [[float(x) for x in p], z, draw(st.sampled_from(['specie', 'num', 'name']))]


OPS = ['append', 'append_site', 'insert', 'pop', 'del', 'set', 'get', 'extend', 'append_sites', 'iadd', 'remove_site', 'remove_sites', 'remove_sites',
       'reverse', 'copy', 'copy', 'setpos', 'setele', 'translate', 'eq', 'eq', 'contains', 'index', 'count', 'remove', 'views', 'views', 'to_gcell', 'clear', 'sphere', 'sphere', 'slice', 'delslice', 'setslice']


@st.composite
def case(draw):
    c = draw(geo_cell(6))
    script = []
    for _ in range(draw(st.integers(1, 22))):
        op = draw(st.sampled_from(OPS))
        d = {'op': op, 'c': draw(st.integers(0, 3))}
        if op in ('append', 'append_site', 'insert', 'set', 'contains', 'index', 'count', 'remove'):
            d['s'] = draw(site(c))
        if op in ('insert', 'del', 'set', 'get', 'setpos', 'setele', 'translate'):
            d['i'] = draw(st.integers(-4, 8))
        if op in ('pop', 'remove_site'):
            d['i'] = draw(st.one_of(st.none(), st.integers(-4, 8)))
        if op in ('extend', 'append_sites', 'iadd'):
            d['ss'] = [draw(site(c)) for _ in range(draw(st.integers(0, 3)))]
        if op == 'remove_sites':
            d['ii'] = draw(st.lists(st.integers(0, 6), max_size=5))
        if op == 'setpos':
            d['p'] = [draw(st.integers(-20, 40)) / 20. for _ in range(3)]
        if op == 'setele':
            d['z'] = draw(G.elements())
        if op == 'translate':
            d['v'] = [draw(st.integers(-30, 30)) / 10. for _ in range(3)]
        if op == 'eq':
            d['o'] = draw(st.integers(0, 3))
        if op == 'sphere':
            d.update(p=[draw(st.integers(-20, 40)) / 20. for _ in range(3)], r=draw(st.sampled_from([0.7, 1.6, 2.55, 3.3, 4.1])), z=draw(st.sampled_from([None] + c['num'])))
        if op in ('slice', 'delslice', 'setslice'):
            ends = st.one_of(st.none(), st.integers(-5, 6))
            d.update(a=draw(ends), b=draw(ends), k=draw(st.sampled_from([None, None, 1, 2, -1])))
        if op == 'setslice':
            d['ss'] = [draw(site(c)) for _ in range(draw(st.integers(0, 3)))]
        script.append(d)
        if op == 'copy' and draw(st.integers(0, 1)):
            # a twin differing in one detail: the two must not be taken for equal, nor change together
            k = draw(st.sampled_from(['nudge', 'nudge', 'nextz', 'lat', 'none']))
            if k == 'nudge':
                script.append({'op': 'nudge', 'c': -1, 'i': draw(st.integers(0, 5)), 'k': draw(st.integers(0, 2)), 'd': draw(st.sampled_from([3e-4, -3e-4, 1e-3, 5e-3, -0.02]))})
            elif k == 'nextz':
                script.append({'op': 'nextz', 'c': -1, 'i': draw(st.integers(0, 5)), 'd': draw(st.sampled_from([1, -1]))})
            elif k == 'lat':
                script.append({'op': 'lat', 'c': -1, 'i': draw(st.integers(0, 2)), 'k': draw(st.integers(0, 2)), 'd': draw(st.sampled_from([0.01, -0.25, 1.5]))})
            script.append({'op': 'eq', 'c': d['c'], 'o': -1} if draw(st.booleans()) else {'op': 'eq', 'c': -1, 'o': d['c']})
            script.append({'op': 'views', 'c': d['c']})
    return {'cell': c, 'script': script, 'source': draw(st.sampled_from(['direct', 'gcell']))}


def close(a, b):
    return len(a) == len(b) and all(x[1] == y[1] and max(abs(u - v) for u, v in zip(x[0], y[0])) < 1e-8 for x, y in zip(a, b))


def valid(n, i):
    return -n <= i < n


def model(cells, d, Ls):
    """apply a step to the list model; returns expected result or '?' if unspecified"""
    m = cells[d['c'] % len(cells)]
    L = Ls[d['c'] % len(cells)]
    op = d['op']
    s = [list(d['s'][0]), d['s'][1]] if 's' in d else None
    n = len(m)
    ss = [[list(x[0]), x[1]] for x in d.get('ss', [])]
    if op in ('append', 'append_site'):
        m.append(s)
        return True if op == 'append_site' else None
    if op == 'insert':
        m.insert(d['i'], s)
        return None
    if op in ('pop', 'remove_site'):
        i = -1 if d['i'] is None else d['i']
        if not valid(n, i):
            return 'raised IndexError'
        x = m.pop(i)
        return x if op == 'pop' else True
    if op in ('del', 'set', 'get', 'setpos', 'setele', 'translate'):
        if not valid(n, d['i']):
            return 'raised IndexError'
        if op == 'del':
            del m[d['i']]
        elif op == 'set':
            m[d['i']] = s
        elif op == 'get':
            return m[d['i']]
        elif op == 'setpos':
            m[d['i']][0] = list(d['p'])
        elif op == 'setele':
            m[d['i']][1] = d['z']
        else:
            m[d['i']][0] = (np.array(m[d['i']][0]) + np.array(d['v']) @ np.linalg.inv(L)).tolist()
        return None
    if op in ('extend', 'append_sites', 'iadd'):
        m.extend(ss)
        return True if op == 'append_sites' else None
    if op == 'remove_sites':
        ii = set(d['ii'])
        m[:] = [x for i, x in enumerate(m) if i not in ii]
        return True
    if op == 'reverse':
        m.reverse()
        return None
    if op == 'clear':
        del m[:]
        return None
    if op == 'copy':
        cells.append(copy.deepcopy(m))
        Ls.append(L.copy())
        return None
    if op == 'lat':
        L[d['i'], d['k']] += d['d']
        return None
    if op == 'eq':
        o = cells[d['o'] % len(cells)]
        dl = np.abs(L - Ls[d['o'] % len(cells)]).max()
        if dl == 0 and (m is o or m == o):
            return True
        if dl > 5e-3:
            return False
        if len(m) != len(o) or any(x[1] != y[1] or max(abs(a - b) for a, b in zip(x[0], y[0])) > 2e-4 for x, y in zip(m, o)):
            return False
        return '?'
    if op in ('contains', 'index', 'count', 'remove'):
        near = [max(abs(a - b) for a, b in zip(x[0], s[0])) for x in m]
        if any(0 < t < 1e-6 for t in near):
            return '?'
        hit = [i for i, x in enumerate(m) if x == s]
        if op == 'contains':
            return bool(hit)
        if op == 'count':
            return len(hit)
        if not hit:
            return 'raised ValueError'
        if op == 'remove':
            del m[hit[0]]
            return None
        return hit[0]
    if op == 'sphere':
        if not m:
            return []
        ds = dists(L, np.array([x[0] for x in m]), d['p'])
        if (np.abs(ds - d['r']) < 1e-6).any():
            return '?'
        return [[i] + copy.deepcopy(m[i]) for i in range(n) if ds[i] < d['r'] and d['z'] in (None, m[i][1])]
    if op == 'slice':
        return m[d['a']:d['b']:d['k']]
    if op == 'delslice':
        del m[d['a']:d['b']:d['k']]
        return None
    if op == 'setslice':
        m[d['a']:d['b']] = ss
        return None
    if op == 'views':
        return 'views'
    if op == 'to_gcell':
        return 'to_gcell'
    raise KeyError(op)


def run(w, case):
    c = case['cell']
    L, p, n = G.arrs(c)
    script = []
    # a conversion needs at least one site: the model knows beforehand
    r0 = w.call('modcell', cell=c, script=[], source=case['source'])
    start = r0['start']
    if case['source'] == 'direct':
        must(start == [[x, z] for x, z in zip(p.tolist(), n.tolist())], 'the sites are %s' % start)
    else:
        must(sorted(start) == sorted([x, z] for x, z in zip(p.tolist(), n.tolist())), 'the sites are %s' % start)
    cells = [copy.deepcopy(start)]
    Ls = [L.copy()]
    snaps = []
    for d in case['script']:
        if d['op'] == 'to_gcell' and not cells[d['c'] % len(cells)]:
            d = dict(d, op='views')
        if d['op'] in ('nudge', 'nextz', 'lat'):
            j = d['c'] % len(cells)
            if d['op'] == 'lat' and j == 0:          # the first cell may share its lattice with its origin
                continue
            if d['op'] != 'lat':
                if not cells[j]:
                    continue
                i = d['i'] % len(cells[j])
                x, z = cells[j][i]
                if d['op'] == 'nudge':
                    d = {'op': 'setpos', 'c': j, 'i': i, 'p': [v + (d['d'] if k == d['k'] else 0) for k, v in enumerate(x)]}
                else:
                    d = {'op': 'setele', 'c': j, 'i': i, 'z': G.ZS[max(0, G.ZS.index(z) + d['d'])] if z != G.ZS[-1] else G.ZS[-2]}
        e = model(cells, d, Ls)
        if e == '?' and d['op'] == 'remove':
            break
        script.append(d)
        snaps.append((copy.deepcopy(e), copy.deepcopy(cells), copy.deepcopy(Ls)))
    r = w.call('modcell', cell=c, script=script, source=case['source'])
    must(r['gcell_kept'], 'the cell it was made from changed')
    for k, (d, (e, cells, Ls), (res, got, lats)) in enumerate(zip(script, snaps, r['trace'])):
        what = 'step %d (%s): ' % (k, d['op'])
        m = cells[d['c'] % len(cells)] if d['op'] != 'copy' else None
        must(len(got) == len(cells), what + 'number of cells')
        for i in range(len(got)):
            must(close(got[i], cells[i]), what + 'cell %d is %s, expected %s' % (i, got[i], cells[i]))
        if lats:
            must(len(lats) == len(Ls) and all(np.allclose(x, y, atol=1e-12) for x, y in zip(lats, Ls)), what + 'the lattices are %s, expected %s' % (lats, [x.tolist() for x in Ls]))
        if d['op'] == 'views':
            must(res['len'] == len(m), what + 'length')
            if m:
                for v in ('iter', 'items'):
                    must(close(res[v], m), what + v + ' %s, expected %s' % (res[v], m))
                must(close(res['rev'], m[::-1]), what + 'reversed')
                must(close([[a, b] for a, b in zip(res['pos'], res['num'])], m) and len(res['pos']) == len(m), what + 'positions/numbers do not list the sites')
        elif d['op'] == 'to_gcell':
            must(np.allclose(res['lat'], Ls[d['c'] % len(cells)], atol=1e-12), what + 'lattice')
            a = sorted([z] + [round(float(v), 7) + 0.0 for v in x] for x, z in zip(res['pos'], res['num']))
            b = sorted([z] + [round(float(v), 7) + 0.0 for v in x] for x, z in m)
            must(len(a) == len(b) and np.allclose(np.array(a), np.array(b), atol=1e-6), what + 'converted to %s, the sites are %s' % (res, m))
        elif d['op'] in ('sphere', 'slice') and e != '?':
            q = 1 if d['op'] == 'sphere' else 0
            must(isinstance(res, list) and len(res) == len(e) and all(x[:q] == y[:q] and close([x[q:]], [y[q:]]) for x, y in zip(res, e)), what + 'gave %s, expected %s' % (res, e))
        elif e != '?' and e is not None:
            if isinstance(e, list):
                must(isinstance(res, list) and close([res], [e]), what + 'returned %s, expected %s' % (res, e))
            else:
                must(res == e and isinstance(res, str) == isinstance(e, str), what + 'returned %s, expected %s' % (res, e))
        elif e is None:
            must(not (isinstance(res, str) and res.startswith('raised')), what + '%s' % res)
    ncop = sum(d['op'] == 'copy' for d in script)
    mut = sum(d['op'] in ('append', 'append_site', 'insert', 'pop', 'del', 'set', 'extend', 'append_sites', 'iadd', 'remove_site', 'remove_sites', 'setpos', 'setele', 'translate', 'remove', 'reverse', 'delslice', 'setslice') for d in script)
    return ncop > 0 and mut > 1, ['copies%d' % min(3, ncop), 'edits%d' % min(9, mut // 3 * 3)]


PROP = Prop('C17', [Facet('history', case(), run, 1800)],
            'Histories of 1-22 edits (append, insert, pop, delete, assign, extend, +=, bulk removal, slices, reverse, copy, site edits, sphere queries, '
            'translation, comparison, search, conversion; lattice edits of copies; twins differing in one small detail) on a cell of 1-6 sites and its copies, made directly or from an immutable cell. Oracle: '
            'python lists of [position, Z]; after every step all live cells are compared. Non-trivial: a copy was taken and at '
            'least two edits made.',
            ['equality is only judged for cells that are identical or differ by an element, by more than 0.0002 in a coordinate or by more than 0.005 in the lattice'])
