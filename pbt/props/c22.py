"""C22: the tree search follows its published rule and leaves the caller's state alone."""
import math
from hypothesis import strategies as st, assume
import game as Gm
from engine import Facet, Prop, must


@st.composite
def case(draw):
    g = {'seed': draw(st.integers(0, 10 ** 6)), 'depth': draw(st.sampled_from([4, 5, 6, 7, 3, 2, 1])), 'branch': draw(st.sampled_from([3, 4, 5, 2, 1])),
         'p_end': draw(st.sampled_from([0, 0, 0.1, 0.3])), 'prior': draw(st.sampled_from(['equal', 'mixed', 'mixed', 'sharp'])), 'two': draw(st.booleans())}
    params = {'lmbda': draw(st.sampled_from([0, 0, 0.25, 0.5, 0.5, 0.9, 1, 1])), 'c_puct': draw(st.sampled_from([0.1, 0.5, 1, 2, 5])),
              'rollout_limit': draw(st.sampled_from([0, 1, 2, 500, 500, 500])), 'playout_depth': draw(st.sampled_from([3, 4, 5, 6, 8, 2, 1])),
              'n_playout': draw(st.sampled_from([12, 25, 40, 80, 5, 2, 1]))}
    script = draw(st.lists(st.one_of(st.just(['move']), st.just(['move']), st.just(['ask']), st.tuples(st.just('play'), st.integers(0, 3)).map(list), st.just(['unknown'])),
                           min_size=1, max_size=6))
    return {'game': g, 'params': params, 'script': script}


class Node:
    def __init__(self, prior):
        self.P, self.u, self.N, self.Q, self.ch = prior, prior, 0, 0.0, {}


def run(w, case):
    g, P = case['game'], case['params']
    lm, cp, lim, L, npl = P['lmbda'], P['c_puct'], P['rollout_limit'], P['playout_depth'], P['n_playout']
    out = w.call('mcts', game=g, params=P, script=case['script'])
    root = Node(1.0)
    hist = []
    k = 0
    searches = 0
    deep = False
    reused = False
    for stp in case['script']:
        acts = Gm.actions(g, hist)
        if not acts:
            break
        o = out[k]
        k += 1
        if stp[0] == 'play':
            mv = acts[stp[1] % len(acts)]
            root = root.ch.get(mv) or Node(1.0)
            reused = reused or root.N > 0
            hist = hist + [mv]
            continue
        if stp[0] == 'unknown':
            root = Node(1.0)
            continue
        what = 'search %d after %s: ' % (searches + 1, hist)
        searches += 1
        must(o['kept'], what + "the caller's state was played on")
        plays = []
        for e in o['log']:
            if e[0] == 'copy':
                must(e[1] == hist, what + 'a playout starts from %s' % e[1])
                plays.append([])
            else:
                must(plays, what + '%s before the state was copied' % e[0])
                plays[-1].append(e)
        must(len(plays) == npl, what + '%d playouts instead of %d' % (len(plays), npl))
        for i, ev in enumerate(plays):
            here = what + 'playout %d: ' % (i + 1)
            node, cur, path = root, list(hist), [root]
            moves = [e for e in ev if e[0] == 'move']
            j = 0
            for d in range(L):
                if not node.ch:
                    pr = Gm.policy(g, cur)
                    if not pr:
                        break
                    for a, p in pr:
                        node.ch[a] = Node(p)
                must(j < len(moves), here + 'stopped after %d moves, the depth is %d' % (j, L))
                a = moves[j][1]
                must(moves[j][2] == cur and a in node.ch, here + 'move %s' % moves[j])
                best = max(c.Q + c.u for c in node.ch.values())
                got = node.ch[a].Q + node.ch[a].u
                must(got >= best - 1e-9, here + 'after %s it chose %s with score %.9f, the best score is %.9f' % (cur, a, got, best))
                node = node.ch[a]
                path.append(node)
                cur = cur + [a]
                j += 1
                deep = deep or len(path) > 3
            must(all(e[2][:len(cur)] == cur for e in moves[j:]), here + 'moves beyond the depth')
            if lm < 1:
                must(any(e == ['value', cur] for e in ev), here + 'the leaf %s was not evaluated' % cur)
            z = 0
            if lm > 0:
                end = list(cur)
                for _ in range(lim):
                    pr = Gm.rollout(g, end)
                    if not pr:
                        break
                    a = max(pr, key=lambda x: x[1])[0]
                    must(j < len(moves) and moves[j][1] == a and moves[j][2] == end, here + 'the rollout from %s does not follow its policy: %s' % (cur, moves[j:]))
                    end = end + [a]
                    j += 1
                wn = Gm.winner(g, end)
                z = 0 if wn == 0 else (1 if wn == Gm.player(g, cur) else -1)
            must(j == len(moves), here + '%d moves too many' % (len(moves) - j))
            v = Gm.value(g, cur) if lm < 1 else 0
            x = (1 - lm) * v + lm * z
            for t, nd in enumerate(path):
                nd.N += 1
                nd.Q += (x - nd.Q) / nd.N
                if t:
                    nd.u = cp * nd.P * math.sqrt(path[t - 1].N) / (1 + nd.N)
        top = max(c.N for c in root.ch.values())
        mv = o['move']
        must(mv in root.ch and root.ch[mv].N == top, what + 'it returned %s (visited %s times), the most visited move has %d' % (mv, root.ch[mv].N if mv in root.ch else None, top))
        if stp[0] == 'move':
            root = root.ch[mv]
            hist = hist + [mv]
            reused = reused or root.N > 0
    return searches > 0 and npl >= 10 and deep and g['branch'] > 1, ['lambda%s' % lm, 'searches%d' % min(3, searches), 'reused' if reused else 'fresh']


PROP = Prop('C22', [Facet('search', case(), run, 2400)],
            'Random deterministic games (depth 1-7, up to 5 moves, equal to sharp priors, one or two players), search parameters (mixing 0-1, '
            'exploration 0.1-5, rollout limit, depth, 1-80 playouts) and histories of 1-6 steps: search and play, search only, play '
            'another move, report an unknown move. Oracle: reference tree fed by the logged moves, which must each be (within 1e-9) '
            'the best score; rollouts, visit counts, returned move, number of playouts. Non-trivial: at least 10 playouts, a path of '
            'depth 3 and a choice to make.',
            ['scores within 1e-9 of each other count as equal'])
