# Operations of the PyPy worker: thin, oracle-free wrappers of the public API.
import gc as _gc
import os, sys
import numpy as np


def register(OPS):
    for k, v in list(globals().items()):
        if k.startswith('op_'):
            OPS[k[3:]] = v


def gc(c, **kw):
    from ababe.stru.scaffold import GeneralCell
    return GeneralCell(np.array(c['lat'], dtype=np.float64), np.array(c['pos'], dtype=np.float64).reshape(-1, 3),
                       np.array(c['num'], dtype=np.int64), **kw)


def sp(z):
    from ababe.stru.element import Specie
    return Specie.from_num(z)


def dump(g):
    return {'lat': np.array(g.lattice).tolist(), 'pos': np.array(g.positions).tolist(),
            'num': [int(x) for x in g.numbers]}


def dump_many(gs):
    """list of cells; repeats of the first cell's lattice/positions are elided"""
    out = []
    first = None
    for g in gs:
        d = dump(g)
        if first is None:
            first = d
            out.append(d)
        else:
            e = {'num': d['num']}
            if d['lat'] != first['lat']:
                e['lat'] = d['lat']
            if d['pos'] != first['pos']:
                e['pos'] = d['pos']
            out.append(e)
    return out


def op_sym(cell, symprec=None):
    g = gc(cell) if symprec is None else gc(cell, symprec=symprec)
    perms = g.get_symmetry_permutation()
    return {'cell': dump(g), 'perms': [[int(x) for x in p] for p in perms]}


# ------------------------------------------------------------------ symmetry / enumeration

def op_equiv(cell, pairs):
    """is_equivalent for pairs of occupations of the cell's sites (site order of the built cell)"""
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.scaffold import GeneralCell
    g = gc(cell)
    o = OccupyGenerator(g)
    out = []
    for a, b in pairs:
        ca = GeneralCell(g.lattice, g.positions, np.array(a))
        cb = GeneralCell(g.lattice, g.positions, np.array(b))
        out.append([[int(x) for x in ca.numbers], [int(x) for x in cb.numbers], bool(o.is_equivalent(ca, cb))])
    return {'cell': dump(g), 'pairs': out, 'after': dump(g)}


def op_symops(cell):
    g = gc(cell)
    s = g.get_symmetry()
    return {'cell': dump(g), 'rot': np.array(s['rotations']).tolist(), 'trans': np.array(s['translations']).tolist(),
            'wyckoffs': [str(x) for x in g.get_wyckoffs()]}


def spg_wyckoffs(g):
    """Wyckoff letters straight from spglib (not from the code under test)"""
    import spglib
    return [str(x) for x in spglib.get_symmetry_dataset((np.array(g.lattice), np.array(g.positions),
                                                         np.array(g.numbers)), symprec=1e-3)['wyckoffs']]


def _gen(o, kind, a):
    if kind == 'unitary':
        return o.gen_nodup_unitary(a['n'], sp(a['sp']))
    if kind == 'wy':
        return o.gen_nodup(a['wy'], a['n'], sp(a['sp']))
    if kind == 'ele':
        return o.gen_nodup_of_ele(sp(a['ele']), a['n'], sp(a['sp']))
    if kind == 'tri':
        if a.get('ele') is None:
            return o.gen_nodup_trinary_alloy(sp(a['sp']), a['n'], sp(a['sp2']), a['n2'])
        return o.gen_nodup_trinary_alloy(sp(a['sp']), a['n'], sp(a['sp2']), a['n2'], sp(a['ele']))
    raise KeyError(kind)


def interleaved(its, limit):
    """read several iterators in turn, more at a time the longer it takes; everything is kept and looked at in the end"""
    import itertools
    outs = [[] for _ in its]
    live = list(range(len(its)))
    k = 1
    while live:
        for i in list(live):
            x = list(itertools.islice(its[i], k))
            outs[i] += x
            if len(x) < k or len(outs[i]) > limit:
                live.remove(i)
        k += 1
    return outs


def op_occ(cell, calls, limit=200000, mixed=False):
    """One OccupyGenerator, several enumerations on it, one after the other or read in turn."""
    from ababe.stru.sogen import OccupyGenerator
    import itertools
    g = gc(cell)
    before = dump(g)
    o = OccupyGenerator(g)
    wy = spg_wyckoffs(g)
    its = []
    outs = []
    for kind, a in calls:
        a = dict(a)
        if kind == 'wy' and 'wy_site' in a:
            a['wy'] = wy[a['wy_site'] % len(wy)]
        it = iter(_gen(o, kind, a))
        if mixed:
            its.append(it)
        else:
            outs.append(list(itertools.islice(it, limit)))
    if mixed:
        outs = interleaved(its, limit)
    return {'cell': before, 'after': dump(g), 'wyckoffs': wy, 'outs': [dump_many(x) for x in outs]}


def op_wyckoffs(cell):
    g = gc(cell)
    return {'cell': dump(g), 'wyckoffs': spg_wyckoffs(g)}


def op_levels(cell, kind, n, spz, ele=None, wy_site=None, order='seq', script=(), limit=50000, warm=None):
    """all_speckle_gen_*; the inner generators are consumed in the given order/partial script. warm: another enumeration
    on the same object before, of which only some is read."""
    from ababe.stru.sogen import OccupyGenerator
    import itertools
    g = gc(cell)
    before = dump(g)
    o = OccupyGenerator(g)
    wy = spg_wyckoffs(g)
    if warm is not None:
        z, k, steps = warm
        have = [int(x) for x in g.numbers].count(z)
        old = [list(itertools.islice(l, k)) for l in itertools.islice(o.all_speckle_gen_unitary(have + steps, sp(z)), steps)]
    if kind == 'unitary':
        gg = o.all_speckle_gen_unitary(n, sp(spz))
    elif kind == 'ele':
        gg = o.all_speckle_gen_of_ele(n, sp(ele), sp(spz))
    else:
        gg = o.all_speckle_gen(n, wy[wy_site % len(wy)], sp(spz))
    levels = []
    if order == 'seq':
        for lv in gg:
            levels.append(list(itertools.islice(lv, limit)))
    elif order == 'outer_first':
        its = list(gg)
        levels = [list(itertools.islice(lv, limit)) for lv in its]
    elif order == 'reverse':
        its = list(gg)
        levels = [None] * len(its)
        for i in range(len(its) - 1, -1, -1):
            levels[i] = list(itertools.islice(its[i], limit))
    elif order == 'script':
        # script: list of (level, how many) partial reads, then everything is drained in order
        its = [iter(x) for x in gg]
        levels = [[] for _ in its]
        for lv, k in script:
            if its:
                i = lv % len(its)
                levels[i] += list(itertools.islice(its[i], k))
        for i in range(len(its)):
            levels[i] += list(itertools.islice(its[i], limit))
    elif order == 'lazy':
        # look at the first element of a level only, then go on to the next; drain afterwards
        its = []
        levels = []
        for lv in gg:
            it = iter(lv)
            levels.append(list(itertools.islice(it, 1)))
            its.append(it)
        for i in range(len(its)):
            levels[i] += list(itertools.islice(its[i], limit))
    return {'cell': before, 'after': dump(g), 'wyckoffs': wy, 'levels': [dump_many(l) for l in levels]}


def op_filter(cell, stream, what, spz=None, ele=None, wy_site=None, again=False):
    """gen_2nodup_gen / gen_add_one_speckle* on an arbitrary stream of occupations"""
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.scaffold import GeneralCell
    g = gc(cell)
    before = dump(g)
    o = OccupyGenerator(g)
    wy = spg_wyckoffs(g)
    src = [GeneralCell(g.lattice, g.positions, np.array(x)) for x in stream]
    orig = [dump(c) for c in src]

    def go(src):
        if what == 'nodup':
            return iter(o.gen_2nodup_gen(iter(src)))
        elif what == 'add':
            return iter(o.gen_add_one_speckle_unitary(iter(src), sp(spz)))
        elif what == 'add_ele':
            return iter(o.gen_add_one_speckle_of_ele(iter(src), sp(ele), sp(spz)))
        elif what == 'add_wy':
            return iter(o.gen_add_one_speckle(iter(src), wy[wy_site % len(wy)], sp(spz)))
    if again:
        # two streams through one object, read in turn
        outs = interleaved([go(src), go(src[::-1])], 10 ** 7)
    else:
        outs = [list(go(src))]
    return {'cell': before, 'after': dump(g), 'wyckoffs': wy, 'src': dump_many(src), 'kept': orig == [dump(c) for c in src],
            'outs': [dump_many(x) for x in outs]}


# ------------------------------------------------------------------ grids

def op_grid_enum(lattice, size, sea, spz, num, limit=20000, what='nodup', use_dict=True):
    from ababe.stru.sogen import gen_nodup_cstru, lat_dict, is_speckle_disjunct
    from ababe.stru.scaffold import CStru
    import itertools
    m = lat_dict(lattice) if use_dict else lattice
    if what == 'nodup':
        g = gen_nodup_cstru(m, sp(sea), tuple(size), sp(spz), num)
    else:
        g = CStru.gen_speckle(m, sp(sea), tuple(size), sp(spz), num)
    return [[np.array(s.get_array()).tolist(), np.array(s.m, dtype=float).tolist()] for s in list(itertools.islice(g, limit))]


def op_grid_cell(lattice, arr, spz):
    from ababe.stru.sogen import is_speckle_disjunct, lat_dict
    from ababe.stru.scaffold import CStru
    m = lat_dict(lattice) if isinstance(lattice, str) else lattice
    s = CStru.from_array(m, np.array(arr))
    lat, pos, num = s.get_cell()
    res = {'m': np.array(m, dtype=float).tolist(), 'arr': np.array(s.get_array()).tolist(), 'lat': np.array(lat).tolist(),
           'pos': np.array(pos).tolist(), 'num': [int(x) for x in num],
           'lat2': np.array(s.get_lattice()).tolist(), 'pos2': np.array(s.get_positions()).tolist(),
           'num2': [int(x) for x in s.get_atoms()], 'gcell': dump(s.get_gcell()),
           'idm': np.array(CStru.get_id_matrix((lat, pos, num), s.depth, s.width, s.length)).tolist()}
    res['disjunct'] = None if spz is None else bool(is_speckle_disjunct(s, sp(spz)))
    return res


def op_grid_equal(lattice, a, b):
    """is_stru_equal under the operations of the empty grid"""
    from ababe.stru.sogen import is_stru_equal, lat_dict
    from ababe.stru.scaffold import CStru
    import spglib
    m = lat_dict(lattice)
    A = CStru.from_array(m, np.array(a))
    B = CStru.from_array(m, np.array(b))
    sea = CStru.from_array(m, np.ones_like(np.array(a))).get_cell()
    sym = spglib.get_symmetry(sea, symprec=1e-3)
    ops = [(r, t) for r, t in zip(sym['rotations'], sym['translations'])]
    return bool(is_stru_equal(A, B, ops))


def op_grid_equal_ops(lattice, a, b, ops):
    from ababe.stru.sogen import is_stru_equal, lat_dict
    from ababe.stru.scaffold import CStru
    m = lat_dict(lattice)
    return bool(is_stru_equal(CStru.from_array(m, np.array(a)), CStru.from_array(m, np.array(b)),
                              [(np.array(r), np.array(t)) for r, t in ops]))


# ------------------------------------------------------------------ buckyball

def op_bucky_info(numbers):
    from ababe.stru.buckyball import Structure
    s = Structure(numbers)
    lat, pos, num = s.spg_cell
    return {'lat': np.array(lat).tolist(), 'pos': np.array(pos).tolist(), 'num': [int(x) for x in num],
            'perms': [[int(x) for x in p] for p in s.get_symmetry_permutation()]}


def op_bucky_levels(numbers, nmax, spz, order='seq', limit=100000, warm=None):
    from ababe.stru.buckyball import Structure
    import itertools
    s = Structure(numbers)
    if warm is not None:
        old = [list(itertools.islice(g, 30)) for g in itertools.islice(Structure.all_speckle_gen(s, numbers.count(warm) + 2, sp(warm)), 3)]
    gg = Structure.all_speckle_gen(s, nmax, sp(spz))
    if order == 'seq':
        lv = [list(itertools.islice(g, limit)) for g in gg]
    else:
        its = list(gg)
        lv = [None] * len(its)
        idx = range(len(its)) if order == 'outer_first' else range(len(its) - 1, -1, -1)
        for i in idx:
            lv[i] = list(itertools.islice(its[i], limit))
    return {'levels': [[[int(v) for v in x] for x in l] for l in lv], 'n_init': int(s.get_speckle_num(sp(spz))),
            'after': [int(x) for x in s.spg_cell[2]]}


def op_bucky_filter(stream, what, spz=None, again=False):
    from ababe.stru.buckyball import Structure
    s = Structure([6] * 60)
    src = [np.array(x) for x in stream]

    def go(src):
        if what == 'nodup':
            return iter(s.to_nodup_generator(iter(src)))
        elif what == 'add':
            return iter(s.add_one_speckle_generator(iter(src), sp(spz)))
        return iter(s.help_add_one_speckle(src[0].tolist(), sp(spz)))
    if again:
        outs = interleaved([go(src), go(src[::-1])], 10 ** 7)
    else:
        outs = [list(go(src))]
    return {'outs': [[[int(v) for v in x] for x in r] for r in outs], 'src': [[int(v) for v in x] for x in src]}


def op_bucky_speckle(spz, noa, limit=40000):
    from ababe.stru.buckyball import Structure
    import itertools
    out = []
    for x in list(itertools.islice(Structure.gen_speckle(sp(spz), noa), limit)):
        x = [int(v) for v in x]
        out.append([[i for i, v in enumerate(x) if v == spz], sorted(set(x)), len(x)])
    return out


# ------------------------------------------------------------------ superlattices, supercells, refinement

def op_hnfs(cell, n, dim, dups=False):
    from ababe.stru.grid import SuperLatticeGenerator, SuperLatticeGenerator2D
    g = gc(cell)
    S = SuperLatticeGenerator if dim == 3 else SuperLatticeGenerator2D
    l = S.hnfs_from_n_dups(g, n) if dups else S.hnfs_from_n(g, n)
    return {'cell': dump(g), 'h': [np.array(x.lat_coeff).tolist() for x in l]}


def op_hnf_eq(cell, pairs):
    from ababe.stru.grid import SuperLatticeCell
    g = gc(cell)
    return {'cell': dump(g), 'eq': [bool(SuperLatticeCell(g, np.array(a)) == SuperLatticeCell(g, np.array(b)))
                                    for a, b in pairs]}


def op_supercell(cell, mat, via, first=()):
    from ababe.stru.grid import SuperLatticeCell
    g = gc(cell)
    b = dump(g)
    for m in first:                   # other supercells of the same object before
        g.supercell(np.array(m)) if via == 'supercell' else SuperLatticeCell(g, np.array(m)).to_general_cell()
    if via == 'supercell':
        s = g.supercell(np.array(mat))
    else:
        s = SuperLatticeCell(g, np.array(mat)).to_general_cell()
    return {'cell': b, 'after': dump(g), 'out': dump(s), 'comment': s.comment, 'count': int(s.num_count)}


def op_refine(cell):
    import spglib
    g = gc(cell)
    b = dump(g)
    r = {'cell': b, 'prim': bool(g.is_primitive()), 'sg': g.get_spacegroup(),
         'spglib_sg': spglib.get_spacegroup((np.array(b['lat']), np.array(b['pos']), np.array(b['num'])), symprec=1e-3)}
    for k, f in (('refined', g.get_refined_cell), ('pcell', g.get_refined_pcell), ('shaped', g.get_shaped_cell)):
        x = f()
        r[k] = dump(x)
        r[k]['sg'] = x.get_spacegroup()
        r[k]['prim'] = bool(x.is_primitive())
    r['after'] = dump(g)
    return r


# ------------------------------------------------------------------ GeneralCell

def op_gcell(lat, pos, num, ele=None, setnum=None, warm=False):
    from ababe.stru.scaffold import GeneralCell
    L, P, N = np.array(lat, dtype=float), np.array(pos, dtype=float).reshape(-1, 3), np.array(num, dtype=np.int64)
    g = GeneralCell(L, P, N)
    g0 = g.numbers
    r = {'input_kept': L.tolist() == np.array(lat, dtype=float).tolist() and P.tolist() == np.array(pos, dtype=float).reshape(-1, 3).tolist()
         and N.tolist() == list(num)}

    def view():
        s = g.spg_cell
        return {'cell': dump(g), 'spg': {'lat': np.array(s[0]).tolist(), 'pos': np.array(s[1]).tolist(), 'num': [int(x) for x in s[2]]},
                'comment': g.comment, 'count': int(g.num_count), 'id': str(g.id), 'cart': np.array(g.get_cartesian()).tolist(),
                'ele_cart': None if ele is None else np.array(g.get_cartesian(sp(ele))).reshape(-1, 3).tolist(),
                'speckle': None if ele is None else int(g.get_speckle_num(sp(ele)))}
    r['view'] = view()

    def derived(g):
        s = g.get_symmetry()
        return {'sg': g.get_spacegroup(), 'prim': bool(g.is_primitive()), 'wyckoffs': [str(x) for x in g.get_wyckoffs()],
                'ops': [np.array(s['rotations']).tolist(), np.array(s['translations']).tolist()], 'id': str(g.id),
                'perms': sorted([int(x) for x in p] for p in g.get_symmetry_permutation()),
                'refined': dump(g.get_refined_cell()), 'primitive': dump(g.get_refined_pcell()), 'shaped': dump(g.get_shaped_cell()),
                'supercell': dump(g.supercell(np.array([[2, 1, 0], [0, 1, 0], [0, 0, 1]])))}
    if setnum is not None:
        if warm:
            derived(g)
        new = np.array(setnum, dtype=np.int64)
        kept = np.array(g0).tolist()
        g.numbers = new
        r['view2'] = view()
        r['set_kept'] = new.tolist() == list(setnum) and N.tolist() == list(num) and np.array(g0).tolist() == kept
        r['perms2'] = [[int(x) for x in p] for p in g.get_symmetry_permutation()]
        r['sg2'] = g.get_spacegroup()
        h = GeneralCell(np.array(r['view2']['cell']['lat']), np.array(r['view2']['cell']['pos']), np.array(setnum, dtype=np.int64))
        r['sg_fresh'] = h.get_spacegroup()
        r['prim2'] = bool(g.is_primitive())
        a, b = derived(g), derived(h)
        r['differs'] = sorted(k for k in a if a[k] != b[k])
    return r


# ------------------------------------------------------------------ I/O

def _clean():
    import shutil
    for f in os.listdir('.'):
        if f.startswith('case_'):
            shutil.rmtree(f, ignore_errors=True)


class scratch:
    """a fresh directory inside the worker's own scratch directory, as cwd"""
    def __enter__(self):
        import tempfile
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='case_', dir=self.old)
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        import shutil
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def op_poscar_write(cell, module, direct, zoom, how, first=()):
    """the POSCAR text the given writer produces; how: string/str/repr/file"""
    g = gc(cell)
    before = dump(g)
    if module == 'io':
        from ababe.io.vasp import VaspOutput as W
    else:
        from ababe.stru.io import VaspPOSCAR as W
    kw = {} if zoom is None else {'zoom': zoom}
    o = W(g, **kw)
    for x in first:                   # the same writer used before
        str(o) if x is None else o.get_string(x)
    with scratch():
        if how == 'string':
            s = o.get_string(direct) if direct is not None else o.get_string()
        elif how == 'str':
            s = str(o)
        elif how == 'repr':
            s = repr(o)
        else:
            if os.path.exists('f'):
                os.unlink('f')
            with open('f', 'w') as f:
                f.write('old content that has to go\n' * 50)
            (o.write_file if module == 'io' else o.write)('f')
            s = open('f').read()
    return {'cell': before, 'after': dump(g), 'text': s}


def op_poscar_read(text, how, name='POSCAR'):
    from ababe.io.vasp import VaspInput
    from ababe.io.io import GeneralIO
    with scratch():
        with open(name, 'w') as f:
            f.write(text)
        if how == 'class':
            g = VaspInput(name).get_cell()
        elif how == 'general':
            g = GeneralIO.from_file(name)
        elif how == 'string':
            from ababe.stru.scaffold import GeneralCell
            g = GeneralCell(*VaspInput.from_string(text))
        else:
            g = GeneralIO.from_file(name, fmt='vasp')
        return {'cell': dump(g), 'same': open(name).read() == text}


def op_yaml_write(cell, module, zoom, how):
    g = gc(cell)
    before = dump(g)
    if module == 'io':
        from ababe.io.yaml import YamlOutput as W
        o = W(g)
    else:
        from ababe.stru.io import YamlOutput as W
        o = W(g, zoom) if zoom is not None else W(g)
    with scratch():
        if how == 'string':
            s = o.get_string()
        elif how == 'str':
            s = str(o)
        elif how == 'repr':
            s = repr(o)
        else:
            (o.write_file if module == 'io' else o.write)('f')
            s = open('f').read()
    return {'cell': before, 'after': dump(g), 'text': s}


def op_yaml_read(text, how, name='a.yaml'):
    from ababe.io.yaml import YamlInput
    from ababe.io.io import GeneralIO
    with scratch():
        with open(name, 'w') as f:
            f.write(text)
        if how == 'class':
            g = YamlInput(name).get_cell()
        elif how == 'general':
            g = GeneralIO.from_file(name)
        elif how == 'string':
            from ababe.stru.scaffold import GeneralCell
            g = GeneralCell(*YamlInput.from_string(text))
        else:
            g = GeneralIO.from_file(name, fmt=how[4:])
        return {'cell': dump(g), 'same': open(name).read() == text}


def op_general_roundtrip(cell, name, fmt, rfmt):
    """GeneralIO.write_file to a name (or stdout), then read it back"""
    from ababe.io.io import GeneralIO
    import io as _io, contextlib
    g = gc(cell)
    before = dump(g)
    with scratch():
        kw = {} if fmt is None else {'fmt': fmt}
        if name is None:
            buf = _io.StringIO()
            with contextlib.redirect_stdout(buf):
                GeneralIO(g).write_file(**kw)
            text = buf.getvalue()
            files = os.listdir('.')
            return {'cell': before, 'after': dump(g), 'text': text, 'files': files}
        GeneralIO(g).write_file(name, **kw)
        files = os.listdir('.')
        text = open(name).read()
        kw = {} if rfmt is None else {'fmt': rfmt}
        h = GeneralIO.from_file(name, **kw)
        return {'cell': before, 'after': dump(g), 'text': text, 'files': files, 'back': dump(h)}


# ------------------------------------------------------------------ restrictions

def op_mindist(cell, items):
    from ababe.stru.restriction import MinDistanceRestriction
    g = gc(cell)
    b = dump(g)
    out = [bool(MinDistanceRestriction((sp(z), d)).is_satisfied(g)) for z, d in items]
    return {'cell': b, 'after': dump(g), 'ok': out}


def op_spgrestrict(cell, lists):
    from ababe.stru.restriction import SpaceGroupRestriction
    import spglib
    g = gc(cell)
    b = dump(g)
    n = int(spglib.get_symmetry_dataset((np.array(b['lat']), np.array(b['pos']), np.array(b['num'])), symprec=1e-3)['number'])
    ls = []
    for l in lists:
        ls.append([n if x == 'own' else (n + int(x[3:]) if isinstance(x, str) else x) for x in l])
    out = [bool(SpaceGroupRestriction(l).is_satisfied(g)) for l in ls]
    return {'cell': b, 'after': dump(g), 'ok': out, 'number': n, 'lists': ls}


def op_reuse(kind, args, cells):
    """one object judging many cells, one after the other; and a new object for every cell"""
    from ababe.stru import restriction as R, clarifier as K

    def make():
        if kind == 'mindist':
            return R.MinDistanceRestriction((sp(args[0]), args[1]))
        if kind == 'spg':
            return R.SpaceGroupRestriction(list(args))
        e = None if args[2] is None else sp(args[2])
        return K.AtomRemoveClarifier(args[0], args[1], e) if kind == 'points' else K.VerboseAtomRemoveClarifier(sp(args[0]), args[1], e)

    def use(o, c):
        return bool(o.is_satisfied(gc(c))) if kind in ('mindist', 'spg') else dump_sites(o.clarify(mc(c)))
    one = make()
    return {'one': [use(one, c) for c in cells], 'new': [use(make(), c) for c in cells]}


# ------------------------------------------------------------------ ModifiedCell

def mc(c):
    from ababe.stru.scaffold import ModifiedCell
    return ModifiedCell(np.array(c['lat'], dtype=float), np.array(c['pos'], dtype=float).reshape(-1, 3), np.array(c['num'], dtype=np.int64))


def dump_sites(m):
    return [[[float(x) for x in s.position], int(s.element.Z)] for s in m]


def op_insphere(cell, queries):
    m = mc(cell)
    out = []
    for center, r, ele in queries:
        d = m.get_points_incell_insphere(center, r, None if ele is None else sp(ele)) if ele is not None or r is None else \
            m.get_points_incell_insphere(center, r)
        out.append([[int(k), [float(x) for x in v.position], int(v.element.Z)] for k, v in d.items()])
    return {'out': out, 'after': dump_sites(m)}


def op_clarify(cell, kind, r, ele, centers=None, cen=None):
    from ababe.stru.clarifier import AtomRemoveClarifier, VerboseAtomRemoveClarifier
    m = mc(cell)
    e = None if ele is None else sp(ele)
    c = AtomRemoveClarifier(centers, r, e) if kind == 'points' else VerboseAtomRemoveClarifier(sp(cen), r, e)
    ret = c.clarify(m)
    return {'ret': dump_sites(ret), 'lat': np.array(ret.lattice).tolist()}


def op_clarify_bad(cell):
    from ababe.stru.clarifier import AtomRemoveClarifier, VerboseAtomRemoveClarifier
    out = []
    for c in (AtomRemoveClarifier([[0, 0, 0]], 1.0), VerboseAtomRemoveClarifier(sp(5), 1.0)):
        try:
            c.clarify(gc(cell))
            out.append('accepted')
        except ValueError:
            out.append('ValueError')
    return out


def op_modcell(cell, script, source='direct'):
    """Run an edit script; after every step dump all live cells. Failing steps report the exception name."""
    from ababe.stru.scaffold import ModifiedCell
    from ababe.stru.site import Site
    g = gc(cell)
    gb = dump(g)
    cells = [ModifiedCell.from_gcell(g) if source == 'gcell' else mc(cell)]
    start = dump_sites(cells[0])

    def S(s):
        z = s[1]
        if s[2] == 'num':
            return Site(tuple(s[0]), int(z))
        if s[2] == 'name':
            from ababe.stru.element import Specie
            return Site(list(s[0]), sp(z).name)
        return Site(s[0], sp(z))
    trace = []
    for st in script:
        m = cells[st['c'] % len(cells)]
        op = st['op']
        res = None
        try:
            if op == 'append':
                m.append(S(st['s']))
            elif op == 'append_site':
                res = m.append_site(S(st['s'])) is m
            elif op == 'insert':
                m.insert(st['i'], S(st['s']))
            elif op == 'pop':
                x = m.pop(st['i']) if st['i'] is not None else m.pop()
                res = [[float(v) for v in x.position], int(x.element.Z)]
            elif op == 'del':
                del m[st['i']]
            elif op == 'set':
                m[st['i']] = S(st['s'])
            elif op == 'get':
                x = m[st['i']]
                res = [[float(v) for v in x.position], int(x.element.Z)]
            elif op == 'extend':
                m.extend([S(s) for s in st['ss']])
            elif op == 'append_sites':
                res = m.append_sites([S(s) for s in st['ss']]) is m
            elif op == 'iadd':
                m += [S(s) for s in st['ss']]
            elif op == 'remove_site':
                res = (m.remove_site(st['i']) if st['i'] is not None else m.remove_site()) is m
            elif op == 'remove_sites':
                res = m.remove_sites(st['ii']) is m
            elif op == 'remove':
                m.remove(S(st['s']))
            elif op == 'reverse':
                m.reverse()
            elif op == 'clear':
                m.clear()
            elif op == 'copy':
                cells.append(m.copy())
            elif op == 'lat':
                m.lattice[st['i']][st['k']] += st['d']
            elif op == 'setpos':
                m[st['i']].position = st['p']
            elif op == 'setele':
                m[st['i']].element = sp(st['z'])
            elif op == 'translate':
                m.translate_sites(st['i'], np.array(st['v']))
            elif op == 'perturb':
                m.perturb(st['d'])
            elif op == 'eq':
                o = cells[st['o'] % len(cells)]
                res = bool(m == o)
            elif op == 'contains':
                res = bool(S(st['s']) in m)
            elif op == 'index':
                res = int(m.index(S(st['s'])))
            elif op == 'count':
                res = int(m.count(S(st['s'])))
            elif op == 'views':
                res = {'pos': np.array(m.positions, dtype=float).tolist(), 'num': [int(x) for x in m.numbers], 'len': len(m),
                       'iter': [[[float(v) for v in s.position], int(s.element.Z)] for s in iter(m)],
                       'rev': [[[float(v) for v in s.position], int(s.element.Z)] for s in reversed(m)],
                       'items': [[[float(v) for v in m[i].position], int(m[i].element.Z)] for i in range(len(m))]}
            elif op == 'sphere':
                d = m.get_points_incell_insphere(st['p'], st['r'], None if st['z'] is None else sp(st['z']))
                res = [[int(k), [float(v) for v in x.position], int(x.element.Z)] for k, x in sorted(d.items())]
            elif op == 'clarify':
                from ababe.stru.clarifier import AtomRemoveClarifier, VerboseAtomRemoveClarifier
                e = None if st['z'] is None else sp(st['z'])
                k = AtomRemoveClarifier([st['p']], st['r'], e) if st['cen'] is None else VerboseAtomRemoveClarifier(sp(st['cen']), st['r'], e)
                res = k.clarify(m) is m
            elif op == 'slice':
                res = [[[float(v) for v in x.position], int(x.element.Z)] for x in m[st['a']:st['b']:st['k']]]
            elif op == 'delslice':
                del m[st['a']:st['b']:st['k']]
            elif op == 'setslice':
                m[st['a']:st['b']] = [S(s) for s in st['ss']]
            elif op == 'to_gcell':
                x = m.to_gcell()
                res = dump(x)
            else:
                raise KeyError('harness op ' + op)
        except (IndexError, ValueError) as e:
            res = 'raised ' + type(e).__name__
        trace.append([res, [dump_sites(x) for x in cells], [np.array(x.lattice).tolist() for x in cells] if op in ('copy', 'views', 'lat') else None])
    return {'start': start, 'trace': trace, 'gcell_kept': dump(g) == gb}


def op_perturb(cell, distances, via):
    m = mc(cell)
    out = []
    for d in distances:
        b = dump_sites(m)
        if d is None:
            m.perturb()
        else:
            m.perturb(d)
        out.append([b, dump_sites(m), np.array(m.lattice).tolist()])
    return out


def op_fraccart(cell, pts):
    m = mc(cell)
    c = [np.array(m.get_cartesian_from_frac(np.array(p))).tolist() for p in pts]
    f = [np.array(m.get_frac_from_cart(np.array(x))).tolist() for x in c]
    return {'cart': c, 'frac': f}


# ------------------------------------------------------------------ command line

def _tree():
    out = {}
    for d, ds, fs in os.walk('.'):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), '.') + '/'] = None
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, '.')] = open(p).read()
    return out


class dull_random:
    """random.choices that mostly gives the same answer: a stand-in that makes rare coincidences of random names common"""
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        import random
        self.orig = random.choices
        if not self.on:
            return
        orig = self.orig

        def choices(population, *a, **kw):
            if random.random() < 0.9:
                k = kw.get('k', a[2] if len(a) > 2 else 1)
                return [list(population)[0]] * k
            return orig(population, *a, **kw)
        random.choices = choices

    def __exit__(self, *a):
        import random
        random.choices = self.orig


def op_cli(prog, files, runs, dull=True):
    """run several command lines one after the other in a scratch directory; the directory tree after each"""
    from click.testing import CliRunner
    if prog == 'aba':
        import ababe.cmdline.runabalib as lib
    else:
        import ababe.cmdline.runatilib as lib
    out = []
    with scratch():
        for n, t in files.items():
            if os.path.dirname(n):
                os.makedirs(os.path.dirname(n), exist_ok=True)
            with open(n, 'w') as f:
                f.write(t)
        for args in runs:
            with dull_random(dull):
                r = CliRunner().invoke(lib.exec_from_cmdline, [str(a) for a in args])
            _gc.collect()            # files that vanish with their handle vanish now
            e = None
            if r.exception is not None:
                import traceback
                tb = traceback.extract_tb(r.exc_info[2])
                e = '%s: %s at %s' % (type(r.exception).__name__, r.exception, [(t[0][-40:], t[1]) for t in tb[-2:]])
            out.append({'code': r.exit_code, 'exc': e, 'output': r.output, 'tree': _tree()})
    return out


# ------------------------------------------------------------------ tree search

def op_mcts(game, params, script):
    """script: list of ['move'] (ask for a move and play it), ['play', k] (play the k-th legal move), ['unknown'] (tell the
    search about a move it has not seen)"""
    import game as Gm
    from ababe.mlearn.mcts import MCTS
    log = []

    class State(object):
        def __init__(self, hist):
            self.hist = list(hist)

        def copy(self):
            log.append(['copy', list(self.hist)])
            return State(self.hist)

        def do_move(self, a):
            if a not in Gm.actions(game, self.hist):
                raise RuntimeError('illegal move %r after %r' % (a, self.hist))
            log.append(['move', a, list(self.hist)])
            self.hist.append(a)

        def get_current_player(self):
            log.append(['player', list(self.hist)])
            return Gm.player(game, self.hist)

        def get_winner(self):
            log.append(['winner', list(self.hist)])
            return Gm.winner(game, self.hist)

    def policy(s):
        log.append(['policy', list(s.hist)])
        return Gm.policy(game, s.hist)

    def value(s):
        log.append(['value', list(s.hist)])
        return Gm.value(game, s.hist)

    def roll(s):
        log.append(['roll', list(s.hist)])
        return Gm.rollout(game, s.hist)
    m = MCTS(value, policy, roll, **params)
    hist = []
    out = []
    for st in script:
        acts = Gm.actions(game, hist)
        if not acts:
            break
        if st[0] == 'move':
            del log[:]
            s = State(hist)
            mv = m.get_move(s)
            out.append({'move': mv, 'log': list(log), 'kept': s.hist == hist})
            if mv not in acts:
                break
            m.update_with_move(mv)
            hist.append(mv)
        elif st[0] == 'ask':
            del log[:]
            s = State(hist)
            mv = m.get_move(s)
            out.append({'move': mv, 'log': list(log), 'kept': s.hist == hist})
        elif st[0] == 'play':
            mv = acts[st[1] % len(acts)]
            m.update_with_move(mv)
            hist.append(mv)
            out.append(None)
        else:
            m.update_with_move(-99)
            out.append(None)
    return out


# ------------------------------------------------------------------ random arrangement, sets, neighbours, elements, grids

def op_arrange(kind, goal, edges=None, nodes=None, start=None):
    from ababe.mlearn.arrange import random_walk_arrange, ArrangeProblem
    from ababe.mlearn import arrangeAgent
    if kind == 'custom':
        adj = {}
        for a, b in edges:
            adj.setdefault(a, []).append(b)
            adj.setdefault(b, []).append(a)

        class P(ArrangeProblem):
            def get_start_position(self):
                return start

            def is_goal(self, n):
                return n == goal

            def get_neighbors(self, s):
                return list(adj.get(s, []))
        p = P()
    else:
        p = getattr(arrangeAgent, kind)(goal)
    path = random_walk_arrange(p)
    return {'path': [list(x) if isinstance(x, tuple) else x for x in path], 'start': p.get_start_position(),
            'goal': [bool(p.is_goal(k)) for k in range(goal + 3)],
            'near': [[list(x) for x in p.get_neighbors(q)] for q in path[:2] + path[-1:]] if kind != 'custom' else None}


def op_arrange_many(times, goal, edges, start):
    return [op_arrange('custom', goal, edges=edges, start=start)['path'] for _ in range(times)]


def op_randset(init, script, keys):
    """operations on several RandomPopSets; keys: 'int', 'str', 'tuple'"""
    from ababe.mlearn.dsutils import RandomPopSet
    K = {'int': lambda x: x, 'str': lambda x: 's%d' % x, 'tuple': lambda x: (x, -x)}[keys]
    back = {}
    for i in range(256):
        back[K(i)] = i
    sets = [RandomPopSet([K(x) for x in init]) if init is not None else RandomPopSet()]
    out = []

    def views():
        return [[sorted(back[x] for x in s), len(s), sorted(back[x] for x in list(s))] for s in sets]
    start = views()
    for st in script:
        s = sets[st[1] % len(sets)]
        op = st[0]
        res = None
        try:
            if op in ('add', 'push', 'discard', 'remove'):
                res = getattr(s, op)(K(st[2]))
            elif op in ('random_pop', 'get_random', 'pop'):
                x = getattr(s, op)()
                res = None if x is None else back[x]
            elif op == 'in':
                res = K(st[2]) in s
            elif op == 'clear':
                s.clear()
            elif op == 'new':
                sets.append(RandomPopSet(K(x) for x in st[2]))
            elif op in ('|', '&', '-', '^'):
                o = sets[st[2] % len(sets)]
                r = {'|': lambda: s | o, '&': lambda: s & o, '-': lambda: s - o, '^': lambda: s ^ o}[op]()
                sets.append(r)
            elif op in ('|=', '&=', '-=', '^='):
                o = sets[st[2] % len(sets)] if isinstance(st[2], int) else set(K(x) for x in st[2])
                if op == '|=':
                    s |= o
                elif op == '&=':
                    s &= o
                elif op == '^=':
                    s ^= o
                else:
                    s -= o
                res = s is sets[st[1] % len(sets)]
            elif op == 'cmp':
                o = sets[st[2] % len(sets)]
                res = [bool(s == o), bool(s <= o), bool(s < o), bool(s.isdisjoint(o)), bool(s == set(o)), bool(s >= o), bool(s > o), bool(s != o), bool(s <= set(o)), bool(s >= set(o))]
            elif op == 'draws':
                # the elements seen in many draws without removal
                res = sorted({back[s.get_random()] for _ in range(60 * len(s))}) if len(s) else []
            elif op == 'drain':
                res = []
                while len(s):
                    res.append(back[s.random_pop()])
        except KeyError:
            res = 'KeyError'
        out.append([res, views()])
    return {'start': start, 'trace': out}


def op_neighbors(m, size, queries):
    from ababe.stru.scaffold2d import SitesGrid2d, CStru2d
    from ababe.stru.scaffold import SitesGrid, CStru
    if len(size) == 2:
        s = CStru2d(m, SitesGrid2d.sea(*size))
    else:
        s = CStru(m, SitesGrid.sea(*size))
    out = []
    for pos, d in queries:
        out.append(sorted([int(v) for v in x] for x in s.get_neighbors(tuple(pos), d)))
    return {'out': out, 'mid': [int(x) for x in s.get_midpoint()], 'arr': np.array(s.get_array()).tolist()}


def op_elements(zs, symbols, pairs):
    from ababe.stru.element import Specie, GhostSpecie
    r = {'num': [], 'sym': [], 'eq': [], 'ghost': None, 'bad': []}
    for z in zs:
        a = Specie.from_num(z)
        b = Specie.from_num(np.int64(z))
        r['num'].append([a.name, int(a.Z), Specie.to_name(z), Specie.to_name(np.int64(z)), b.name, int(b.Z), float(a.atom_mass), bool(a == b), str(a.symbol)])
    for s in symbols:
        a = Specie(s)
        r['sym'].append([a.name, int(a.Z), float(a.atom_mass), float(a.atom_radius)])
    mk = {'n': lambda x: Specie.from_num(x[0]), 's': lambda x: Specie(x[1]), 'g': lambda x: GhostSpecie()}
    for (ka, a), (kb, b) in pairs:
        x, y = mk[ka](a), mk[kb](b)
        r['eq'].append([int(x.Z), int(y.Z), bool(x == y), bool(x != y), bool(x == x.Z), bool(x == x.name)])
    g = GhostSpecie()
    r['ghost'] = [g.name, int(g.Z), float(g.atom_mass), bool(g == Specie('G')), bool(Specie('G') == g), bool(Specie.from_num(0) == g)]
    for x in ('Xx', 'la', '', 'CA'):
        try:
            Specie(x)
            r['bad'].append('accepted')
        except Exception as e:
            r['bad'].append('refused')
    return r


def op_grid3(arr, m, script, fill):
    """SitesGrid/CStru edits: list of live grids, after every step all arrays"""
    from ababe.stru.scaffold import SitesGrid, CStru
    grids = [SitesGrid.from_array(np.array(arr))]
    kept = {}
    out = []

    def views():
        return [np.array(g.to_array()).tolist() for g in grids]
    first = views()
    dims = [grids[0].depth, grids[0].width, grids[0].length]
    for st in script:
        g = grids[st[1] % len(grids)]
        res = None
        if st[0] == 'copy':
            grids.append(g.deepCopy())
        elif st[0] == 'set':
            d = [g.depth, g.width, g.length]
            g[tuple(x % y for x, y in zip(st[2], d))] = sp(st[3])
        elif st[0] == 'get':
            d = [g.depth, g.width, g.length]
            res = int(g[tuple(x % y for x, y in zip(st[2], d))].Z)
        elif st[0] == 'sub':
            a = np.array(g.to_array())
            b, e, f = [max(1, x % (y + 1)) for x, y in zip(st[2], a.shape)]
            grids.append(SitesGrid.from_array(a[:b, :e, :f]))
            n = grids[-1]
            res = [n.depth, n.width, n.length]
        elif st[0] == 'eq':
            o = grids[st[2] % len(grids)]
            res = [bool(g == o), bool(g == None), bool(CStru(m, g) == CStru(m, o)), bool(CStru(m, g) == CStru([[9, 0, 0], [0, 9, 0], [0, 0, 9]], o)), bool(CStru(m, g) == None)]  # noqa
        elif st[0] == 'roundtrip':
            grids.append(SitesGrid.from_array(g.to_array()))
        elif st[0] == 'sea':
            grids.append(SitesGrid.sea(*(list(dims) + [sp(st[2])])))
        elif st[0] == 'cstru':
            c = CStru(m, g)
            res = []
            for c in (c, kept.setdefault(st[1] % len(grids), c)):       # a new structure, and the first one made of this grid
                res.append([np.array(c.get_array()).tolist(), [int(x) for x in c.get_midpoint()], [c.depth, c.width, c.length], np.array(c.m, dtype=float).tolist(),
                            [int(x) for x in c.get_cell()[2]], [int(x) for x in c.get_atoms()]])
        out.append([res, views()])
    f = SitesGrid.random_fill(sp(fill[0]), tuple(dims), sp(fill[1]))
    return {'first': first, 'dims': dims, 'trace': out, 'fill': np.array(f.to_array()).tolist()}


def op_grid2(arr, m, spz):
    from ababe.stru.scaffold2d import SitesGrid2d, CStru2d
    g = SitesGrid2d.from_array(np.array(arr))
    h = SitesGrid2d.from_array(g.get_array())
    s = SitesGrid2d.sea(g.width, g.length, sp(spz))
    s0 = SitesGrid2d.sea(g.width, g.length)
    c = CStru2d(m, g)
    return {'arr': np.array(g.get_array()).tolist(), 'back': np.array(h.get_array()).tolist(), 'eq': bool(g == h), 'eqsea': bool(g == s), 'none': bool(g == None),  # noqa
            'sea': np.array(s.get_array()).tolist(), 'sea0': np.array(s0.get_array()).tolist(), 'dims': [g.width, g.length, c.width, c.length],
            'sub': [bool(g == SitesGrid2d.from_array(np.array(arr)[:i, :j])) for i in range(1, g.width + 1) for j in range(1, g.length + 1)],
            'bus': [bool(SitesGrid2d.from_array(np.array(arr)[:i, :j]) == g) for i in range(1, g.width + 1) for j in range(1, g.length + 1)],
            'carr': np.array(c.get_array()).tolist(), 'mid': [int(x) for x in c.get_midpoint()], 'm': np.array(c.m, dtype=float).tolist()}
