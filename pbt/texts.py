"""Independent readers/writers of POSCAR and YAML texts, used as oracle."""
import json, re
import numpy as np
import gens as G
from engine import must, Violation


def parse_poscar(text):
    """strict reader of a VASP5 POSCAR; returns dict(lat (scaled), pos (fractional), num, comment, zoom, mode, tags)"""
    lines = text.split('\n')
    must(text.endswith('\n'), 'the file does not end with a newline')
    lines = lines[:-1]
    must(len(lines) >= 8, 'only %d lines: %r' % (len(lines), text))
    try:
        zoom = float(lines[1])
        lat = np.array([[float(x) for x in lines[i].split()] for i in (2, 3, 4)])
        syms = lines[5].split()
        cnt = [int(x) for x in lines[6].split()]
    except ValueError as e:
        raise Violation('unreadable POSCAR (%s): %r' % (e, text))
    must(lat.shape == (3, 3), 'lattice lines: %r' % text)
    must(len(syms) == len(cnt) and all(s in G.S2Z for s in syms), 'symbols/counts lines: %r %r' % (lines[5], lines[6]))
    mode = lines[7].strip()[:1].lower()
    must(mode in ('d', 'c', 'k'), 'mode line %r' % lines[7])
    body = lines[8:]
    must(len(body) == sum(cnt), '%d coordinate lines for %d atoms' % (len(body), sum(cnt)))
    pos, num, tags = [], [], []
    i = 0
    for s, k in zip(syms, cnt):
        for _ in range(k):
            t = body[i].split()
            must(len(t) in (3, 4), 'coordinate line %r' % body[i])
            pos.append([float(x) for x in t[:3]])
            num.append(G.S2Z[s])
            tags.append(t[3] if len(t) == 4 else None)
            if len(t) == 4:
                must(t[3] == s, 'the line %r is listed in the block of %s' % (body[i], s))
            i += 1
    scale = zoom if zoom >= 0 else (-zoom / abs(np.linalg.det(lat))) ** (1 / 3.)
    pos = np.array(pos).reshape(-1, 3)
    if mode in 'ck':
        pos = pos @ np.linalg.inv(lat)
    return {'lat': lat * scale, 'rawlat': lat, 'pos': pos, 'num': num, 'comment': lines[0], 'zoom': zoom, 'mode': mode, 'syms': syms, 'counts': cnt}


def make_poscar(L, pos, num, order, zoom, mode, comment, style, tags):
    """text of the crystal (L,pos,num) with lattice lines L; zoom is the scale line.

    order: list of Z giving the block order (an element may come twice); style: dict of formatting choices."""
    sep = style.get('sep', ' ')
    ind = style.get('ind', '')
    fmt = style.get('fmt', '%.6f')
    lines = [comment, ind + ('%g' % zoom if style.get('gzoom') else repr(float(zoom)))]
    for r in L:
        lines.append(ind + sep.join(fmt % x for x in r))
    blocks, used = [], {}
    for b, z in enumerate(order):                 # an element listed k times has its atoms dealt to k blocks
        mine = [i for i in range(len(num)) if num[i] == z]
        k, o = order.count(z), used.get(z, 0)
        used[z] = o + 1
        blocks.append(mine[len(mine) * o // k:len(mine) * (o + 1) // k])
    idx = [i for b in blocks for i in b]
    lines.append(ind + sep.join(G.Z2S[z] for z in order))
    lines.append(ind + sep.join(str(len(b)) for b in blocks))
    lines.append(mode)
    P = np.array(pos) @ np.array(L) if mode.strip()[0] in 'cCkK' else np.array(pos)
    for i in idx:
        lines.append(ind + sep.join(fmt % x for x in P[i]) + (sep + G.Z2S[num[i]] if tags else ''))
    return '\n'.join(lines) + style.get('end', '\n')
