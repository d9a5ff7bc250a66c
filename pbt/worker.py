# Runs under /opt/pvenv/bin/python (PyPy 3.9): executes requests against the
# code in /repo.  One JSON request per line on stdin, one JSON reply per line
# on the descriptor given as argv[1].  Contains no oracle: it only drives the
# public API and turns results into JSON.
import sys, os, json, traceback, warnings
warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

_out = os.fdopen(int(sys.argv[1]), 'w')

import numpy as np
import random

import ababe
assert os.path.dirname(os.path.dirname(os.path.abspath(ababe.__file__))) == os.path.abspath(REPO), ababe.__file__

import spglib

SPG = [False]


def _watch(name):
    """spglib 1.9.9 finds no space group at all for a few well-formed cells, whatever the tolerance.  Such a cell is
    reported with the reply: what the code makes of it is spglib's affair."""
    f = getattr(spglib, name)
    base = spglib.get_symmetry

    def watched(*a, **k):
        r = f(*a, **k)
        if r is None:
            try:
                L, p, n = [np.array(x) for x in a[0][:3]]
                d = p[:, None] - p[None]
                d -= np.rint(d)
                d = np.sqrt((np.dot(d, L) ** 2).sum(-1)) + 9 * np.eye(len(n))
                if abs(np.linalg.det(L)) > 1e-2 and d.min() > .05 and len(n) == len(p) > 0 \
                        and all(base((L, p, n), symprec=s) is None for s in (1e-5, 1e-4, 1e-3)):
                    SPG[0] = True
            except Exception:
                pass
        return r
    watched.__name__ = name
    return watched


for _n in ('get_symmetry', 'get_spacegroup', 'get_symmetry_dataset', 'find_primitive', 'standardize_cell'):
    setattr(spglib, _n, _watch(_n)) if _n != 'get_symmetry' else None
spglib.get_symmetry = _watch('get_symmetry')

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def default(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError('not serialisable: %r' % (o,))


_HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, _HERE)
import worker_ops  # noqa  (registers operations in OPS through this module)
worker_ops.register(OPS)


def main():
    _out.write(json.dumps({'ready': True}) + '\n')
    _out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        SPG[0] = False
        try:
            seed = req.get('seed', 0)
            random.seed(seed)
            np.random.seed(seed)
            res = OPS[req['op']](**req['args'])
            rep = json.dumps(dict({'ok': res}, **({'spg': 1} if SPG[0] else {})), default=default)
        except BaseException as e:      # includes SystemExit raised by the code
            if isinstance(e, KeyboardInterrupt):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = [(os.path.relpath(t[0], REPO) if t[0].startswith(REPO) else t[0], t[1], t[2]) for t in tb]
            rep = json.dumps({'spg': int(SPG[0]), 'exc': type(e).__name__, 'msg': str(e)[:500],
                              'in_repo': any(t[0].startswith(REPO + '/') for t in tb),
                              'where': where[-4:]})
        _out.write(rep + '\n')
        _out.flush()


if __name__ == '__main__':
    main()
