"""Independent crystallography oracle (CPython/numpy; shares no code with /repo, no spglib).

Row-vector convention throughout: lattice rows are the basis vectors, a
fractional position x sits at x @ L, a symmetry acts as x -> x @ W + t.
"""
import itertools, math
import numpy as np


def lat_reduce(L):
    """Return (Lr, T) with Lr = T @ L, T integer unimodular, Lr short (pairwise + combination reduced)."""
    L = np.array(L, float)
    T = np.eye(3, dtype=int)
    R = L.copy()
    combos = [c for c in itertools.product((-1, 0, 1), repeat=2) if c != (0, 0)]
    for _ in range(1000):
        changed = False
        order = np.argsort([R[i] @ R[i] for i in range(3)], kind='stable')
        R, T = R[order], T[order]
        # integer Gram-Schmidt steps first (cheap big steps)
        for i in range(3):
            for j in range(3):
                if i != j and R[j] @ R[j] <= R[i] @ R[i]:
                    k = int(round((R[i] @ R[j]) / (R[j] @ R[j])))
                    if k:
                        v = R[i] - k * R[j]
                        if v @ v < R[i] @ R[i] * (1 - 1e-9):
                            R[i] = v
                            T[i] = T[i] - k * T[j]
                            changed = True
        if not changed:
            for i in range(3):
                j, k = [x for x in range(3) if x != i]
                for a, b in combos:
                    v = R[i] + a * R[j] + b * R[k]
                    if v @ v < R[i] @ R[i] * (1 - 1e-9):
                        R[i] = v
                        T[i] = T[i] + a * T[j] + b * T[k]
                        changed = True
                        break
                if changed:
                    break
        if not changed:
            return T @ L, T
    raise RuntimeError('reduction did not converge')


def image_range(L, r):
    """Integer bounds n_i such that every lattice vector of length <= r has |coef_i| <= n_i."""
    B = np.linalg.inv(L)           # columns are reciprocal vectors
    return [int(math.floor(r * np.linalg.norm(B[:, i]) + 1e-9)) for i in range(3)]


def int_box(n):
    return np.array(list(itertools.product(*[range(-k, k + 1) for k in n])), dtype=int)


def lattice_isometries(L, tol):
    """All integer W (fractional, row convention) with W L isometric to L."""
    Lr, T = lat_reduce(L)
    G = Lr @ Lr.T
    lens = np.sqrt(np.diag(G))
    box = int_box(image_range(Lr, lens.max() + tol))
    vec = box @ Lr
    vl = np.linalg.norm(vec, axis=1)
    cand = [np.where(np.abs(vl - lens[i]) < tol)[0] for i in range(3)]
    out = []
    Ti = np.rint(np.linalg.inv(T)).astype(int)
    for a in cand[0]:
        for b in cand[1]:
            if abs(vec[a] @ vec[b] - G[0, 1]) > tol * (lens[0] + lens[1]):
                continue
            for c in cand[2]:
                if abs(vec[a] @ vec[c] - G[0, 2]) > tol * (lens[0] + lens[2]):
                    continue
                if abs(vec[b] @ vec[c] - G[1, 2]) > tol * (lens[1] + lens[2]):
                    continue
                Wr = np.array([box[a], box[b], box[c]])
                if abs(round(np.linalg.det(Wr))) != 1:
                    continue
                out.append(Ti @ Wr @ T)
    return out


def match(posA, posB, L, tol):
    """m[i] = j with posB[j] == posA[i] modulo the lattice (within tol, cartesian), or None if no bijection.

    tol must be small against interatomic distances and cell thickness."""
    if len(posA) != len(posB):
        return None
    d = posA[:, None, :] - posB[None, :, :]
    d = d - np.rint(d)
    c = np.sqrt(((d @ L) ** 2).sum(-1))
    m = c.argmin(1)
    if (c[np.arange(len(m)), m] > tol).any() or len(set(m.tolist())) != len(m):
        return None
    return m


def symmetries(L, pos, num, tol=5e-3, lat_ops=None):
    """All (W, t, perm): x -> xW+t maps the crystal onto itself; perm[i] = j means atom j lands on site i."""
    L = np.array(L, float)
    pos = np.array(pos, float)
    num = np.array(num)
    if lat_ops is None:
        lat_ops = lattice_isometries(L, tol)
    kinds, counts = np.unique(num, return_counts=True)
    k = kinds[counts.argmin()]
    idx = np.where(num == k)[0]
    a = idx[0]
    same = num[:, None] == num[None, :]
    out = []
    for W in lat_ops:
        pw = pos @ W
        for b in idx:
            t = pos[b] - pw[a]
            d = pos[:, None, :] - (pw + t)[None, :, :]
            d = d - np.rint(d)
            c = np.sqrt(((d @ L) ** 2).sum(-1))
            m = c.argmin(1)
            r = np.arange(len(m))
            if (c[r, m] > tol).any() or not same[r, m].all() or len(set(m.tolist())) != len(m):
                continue
            out.append((W, t, m))
    return out


def perm_set(syms):
    return sorted({tuple(int(x) for x in s[2]) for s in syms})


def min_pair_dist(L, posA, posB=None, cutoff_hint=None):
    """Smallest non-zero periodic distance between A and B sites (A==B includes self images)."""
    L = np.array(L, float)
    Lr, T = lat_reduce(L)
    Ti = np.linalg.inv(T)
    A = np.array(posA, float).reshape(-1, 3) @ Ti
    B = A if posB is None else np.array(posB, float).reshape(-1, 3) @ Ti
    if len(A) == 0 or len(B) == 0:
        return math.inf
    d = (A[:, None, :] - B[None, :, :]).reshape(-1, 3)
    d = d - np.floor(d)
    R = np.linalg.norm(Lr, axis=1).max()
    n = [k + 1 for k in image_range(Lr, R * 1.01)]
    box = int_box(n)
    c = np.sqrt((((d[:, None, :] + box[None, :, :]) @ Lr) ** 2).sum(-1))
    if posB is None:
        self_pairs = np.zeros((len(A), len(A)), bool)
        np.fill_diagonal(self_pairs, True)
        zero = (box == 0).all(1)
        c[np.outer(self_pairs.reshape(-1), zero)] = np.inf
    return float(c.min())


def nearest_image_dist(L, x, centers):
    """Distance from site x to the nearest periodic image of each center (fractional input)."""
    L = np.array(L, float)
    Lr, T = lat_reduce(L)
    Ti = np.linalg.inv(T)
    d = (np.array(x, float) - np.array(centers, float).reshape(-1, 3)) @ Ti
    d = d - np.rint(d)
    R = np.linalg.norm(Lr, axis=1).sum() / 2      # no offset d is longer than this, so neither is its nearest image
    n = [k + 1 for k in image_range(Lr, R)]
    box = int_box(n)
    return np.sqrt((((d[:, None, :] + box[None]) @ Lr) ** 2).sum(-1)).min(1)


def is_primitive(L, pos, num, tol=5e-3):
    s = symmetries(L, pos, num, tol, lat_ops=[np.eye(3, dtype=int)])
    return len(s) == 1


def n_pure_translations(L, pos, num, tol=5e-3):
    return len(symmetries(L, pos, num, tol, lat_ops=[np.eye(3, dtype=int)]))


def dist_fingerprint(L, pos, num, rmax):
    """Multiset of (species, species, distance) per atom, as sorted list of per-atom shells; rotation invariant."""
    L = np.array(L, float)
    Lr, T = lat_reduce(L)
    Ti = np.linalg.inv(T)
    p = np.array(pos, float) @ Ti
    num = np.array(num)
    box = int_box([k + 1 for k in image_range(Lr, rmax)])
    d = p[None, :, :] - p[:, None, :]
    d = d - np.floor(d)
    c = np.sqrt((((d[:, :, None, :] + box[None, None]) @ Lr) ** 2).sum(-1))
    res = []
    for i in range(len(p)):
        sh = []
        for j in range(len(p)):
            for x in c[i, j]:
                if 1e-6 < x < rmax:
                    sh.append((int(num[j]), float(x)))
        res.append((int(num[i]), sorted(sh)))
    return res


def same_crystal(A, B, tol=2e-3, proper=False):
    """True iff cells A and B (lat,pos,num) describe the same infinite crystal up to a rigid motion
    (rotation/reflection + translation).  A and B may use different cells.

    Reduce both to a primitive cell, then look for an isometry."""
    LA, pA, nA = primitive(*A)
    LB, pB, nB = primitive(*B)
    if len(nA) != len(nB) or sorted(nA.tolist()) != sorted(nB.tolist()):
        return False
    if abs(abs(np.linalg.det(LA)) - abs(np.linalg.det(LB))) > 10 * tol * max(1, np.linalg.norm(LA)) ** 2:
        return False
    return len(isometries_between(LA, pA, nA, LB, pB, nB, tol, first=True, proper=proper)) > 0


def primitive(L, pos, num, tol=5e-3):
    L = np.array(L, float)
    pos = np.array(pos, float)
    num = np.array(num)
    tr = symmetries(L, pos, num, tol, lat_ops=[np.eye(3, dtype=int)])
    n = len(tr)
    if n == 1:
        Lr, T = lat_reduce(L)
        return Lr, (pos @ np.linalg.inv(T)) % 1.0, num
    # translation vectors are rationals with denominator n; build the finer lattice exactly over the integers
    rows = [np.rint((t[1] - np.rint(t[1])) * n).astype(int) for t in tr]
    M = hnf_rows(np.vstack([np.array(rows), n * np.eye(3, dtype=int)]))
    P = (M / n) @ L
    Pr, T = lat_reduce(P)
    q = pos @ L @ np.linalg.inv(Pr)
    keep = []
    for i in range(len(q)):
        ok = True
        for j in keep:
            d = q[i] - q[j]
            d = d - np.rint(d)
            if np.linalg.norm(d @ Pr) < 2 * tol:
                ok = False
                break
        if ok:
            keep.append(i)
    if len(keep) * n != len(num):
        raise RuntimeError('primitive reduction inconsistent')
    return Pr, q[keep] % 1.0, num[keep]


def hnf_rows(M):
    """Integer row-style Hermite normal form (upper triangular basis of the row lattice, full rank 3)."""
    M = [list(map(int, r)) for r in M]
    res = []
    for c in range(3):
        while True:
            nz = [r for r in M if r[c] != 0]
            if not nz:
                raise RuntimeError('rank')
            piv = min(nz, key=lambda r: abs(r[c]))
            done = True
            new = []
            used = False
            for r in M:
                if r is piv and not used:
                    used = True
                    continue
                if r[c] != 0:
                    q = r[c] // piv[c]
                    r = [x - q * y for x, y in zip(r, piv)]
                    if r[c] != 0:
                        done = False
                new.append(r)
            if done:
                if piv[c] < 0:
                    piv = [-x for x in piv]
                res.append(piv)
                M = [r for r in new if any(r)]
                break
            M = new + [piv]
    # reduce above the diagonal
    for i in range(3):
        for j in range(i):
            q = res[j][i] // res[i][i]
            res[j] = [x - q * y for x, y in zip(res[j], res[i])]
    return np.array(res, dtype=int)


def isometries_between(LA, pA, nA, LB, pB, nB, tol, first=False, proper=False):
    """Find bases of lattice B (integer combos) with the same Gram matrix as LA, then match atoms."""
    G = LA @ LA.T
    lens = np.sqrt(np.diag(G))
    Lr, T = lat_reduce(LB)
    box = int_box(image_range(Lr, lens.max() + 10 * tol))
    vec = box @ Lr
    vl = np.linalg.norm(vec, axis=1)
    ltol = 5 * tol
    cand = [np.where(np.abs(vl - lens[i]) < ltol)[0] for i in range(3)]
    kinds, counts = np.unique(nA, return_counts=True)
    k = kinds[counts.argmin()]
    a = np.where(nA == k)[0][0]
    bs = np.where(nB == k)[0]
    cartB = pB @ LB
    out = []
    for x in cand[0]:
        for y in cand[1]:
            if abs(vec[x] @ vec[y] - G[0, 1]) > ltol * (lens[0] + lens[1]):
                continue
            for z in cand[2]:
                if abs(vec[x] @ vec[z] - G[0, 2]) > ltol * (lens[0] + lens[2]):
                    continue
                if abs(vec[y] @ vec[z] - G[1, 2]) > ltol * (lens[1] + lens[2]):
                    continue
                W = np.array([box[x], box[y], box[z]])
                if abs(round(np.linalg.det(W))) != 1:
                    continue
                NB = W @ Lr
                if proper and np.linalg.det(NB) * np.linalg.det(LA) < 0:
                    continue
                qB = cartB @ np.linalg.inv(NB)
                for b in bs:
                    t = qB[b] - pA[a]
                    m = match(pA + t, qB, NB, 10 * tol)
                    if m is not None and (nB[m] == nA).all():
                        out.append((W, t, m))
                        if first:
                            return out
    return out


# ---------------------------------------------------------------- labelings and orbits

def encode(labels, base):
    w = np.array([base ** i for i in range(labels.shape[-1])], dtype=object)
    if base ** labels.shape[-1] < 2 ** 62:
        w = w.astype(np.int64)
        return labels.astype(np.int64) @ w
    return labels.astype(object) @ w


def canonical_codes(labels, perms):
    """labels: (M,N) small ints. For every labeling the minimal code over the permutation group."""
    labels = np.asarray(labels)
    base = int(labels.max()) + 1 if labels.size else 1
    base = max(base, 2)
    return canonical_codes_base(labels, perms, base)


def canonical_codes_base(labels, perms, base):
    best = None
    for p in perms:
        c = encode(labels[:, list(p)], base)
        best = c if best is None else np.minimum(best, c)
    return best
