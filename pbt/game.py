# A family of small deterministic games, shared by the worker (PyPy) and the driver.
import hashlib


def h(seed, tag, hist):
    s = '%s|%s|%s' % (seed, tag, ','.join(map(str, hist)))
    return int(hashlib.md5(s.encode()).hexdigest()[:12], 16) / float(16 ** 12)


def actions(g, hist):
    """legal moves after hist"""
    if len(hist) >= g['depth']:
        return []
    if len(hist) > 0 and h(g['seed'], 'end', hist) < g['p_end']:
        return []
    n = 1 + int(h(g['seed'], 'n', hist) * g['branch'])
    return [a * 3 + 1 for a in range(n)]


def policy(g, hist):
    acts = actions(g, hist)
    if g['prior'] == 'equal':
        return [(a, 1.0 / len(acts)) for a in acts]
    p = [h(g['seed'], 'p%d' % a, hist) + 0.01 for a in acts]
    if g['prior'] == 'sharp':
        p = [x ** 6 for x in p]
    return [(a, x / sum(p)) for a, x in zip(acts, p)]


def rollout(g, hist):
    return [(a, h(g['seed'], 'r%d' % a, hist)) for a in actions(g, hist)]


def value(g, hist):
    return 2 * h(g['seed'], 'v', hist) - 1


def player(g, hist):
    return 1 if not g['two'] else (1 if len(hist) % 2 == 0 else -1)


def winner(g, hist):
    return [0, 1, -1][int(h(g['seed'], 'w', hist) * 3)]
