"""Oracle for occupation enumeration: orbits of labelings under a crystal's symmetry group."""
import itertools, math
import numpy as np
import crystal as C
import gens as G
from engine import must

MAXLAB = 60000


def same_sites(init, out, what):
    """labels of `out` on the sites of `init` (same lattice, same sites in any order)."""
    lat = np.array(out.get('lat', init['lat']), float)
    must(np.allclose(lat, init['lat'], atol=1e-8, rtol=0), '%s: the lattice changed to %s' % (what, lat.tolist()))
    num = out['num']
    must(len(num) == len(init['num']), '%s: %d sites instead of %d' % (what, len(num), len(init['num'])))
    if 'pos' not in out or out['pos'] == init['pos']:
        return list(num)
    p = np.array(out['pos'], float)
    q = np.array(init['pos'], float)
    must(p.shape == q.shape, '%s: positions have shape %s' % (what, p.shape))
    m = C.match(q, p, np.array(init['lat'], float), 1e-6)
    must(m is not None, '%s: the sites moved' % what)
    return [num[j] for j in m]


def unpack(init, outs, what):
    """dump_many() output -> list of label lists on init's sites"""
    res = []
    first = None
    for o in outs:
        d = dict(o)
        if first is None:
            first = d
        else:
            d.setdefault('lat', first['lat'])
            d.setdefault('pos', first['pos'])
        res.append(same_sites(init, d, what))
    return res


def perms_of(init):
    L, p, n = G.arrs(init)
    return C.perm_set(C.symmetries(L, p, n, G.TOL, lat_ops=G.lat_ops(L, G.TOL)))


def labelings(base, eligible, n, z):
    """distinct labelings from putting z on n of the eligible sites"""
    out = set()
    b = list(base)
    for comb in itertools.combinations(eligible, n):
        x = list(b)
        for i in comb:
            x[i] = z
        out.add(tuple(x))
    return out


def labelings2(base, eligible, n1, z1, n2, z2):
    out = set()
    b = list(base)
    for c1 in itertools.combinations(eligible, n1):
        rest = [i for i in eligible if i not in c1]
        for c2 in itertools.combinations(rest, n2):
            x = list(b)
            for i in c1:
                x[i] = z1
            for i in c2:
                x[i] = z2
            out.add(tuple(x))
    return out


class Orbits:
    def __init__(self, perms, alphabet):
        self.perms = np.array([list(p) for p in perms])
        self.alpha = {z: i for i, z in enumerate(sorted(set(alphabet)))}
        self.base = max(2, len(self.alpha))

    def canon(self, labs):
        labs = list(labs)
        if not labs:
            return []
        A = np.array([[self.alpha[z] for z in l] for l in labs])
        return C.canonical_codes_base(A, self.perms, self.base).tolist()


def judge(perms, base, allowed, got, what):
    """got: list of label lists. Exactly one per orbit of `allowed`, nothing else. Returns number of orbits."""
    alpha = set(base)
    for x in allowed:
        alpha.update(x)
        break
    alld = set(allowed)
    for x in alld:
        alpha.update(x)
    for g in got:
        must(tuple(g) in alld, '%s: yielded a structure that is not one of the requested substitutions: %s of %s'
             % (what, g, list(base)))
    O = Orbits(perms, alpha)
    want = set(O.canon(alld))
    cg = O.canon(got)
    must(len(set(cg)) == len(cg), '%s: %d structures but only %d symmetry classes among them (symmetry duplicates)'
         % (what, len(cg), len(set(cg))))
    must(set(cg) == want, '%s: %d of the %d symmetry classes are present' % (what, len(set(cg)), len(want)))
    return len(want)
