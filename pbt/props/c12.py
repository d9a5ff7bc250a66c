"""C12: YAML files carry the crystal incl. vacancies; the format follows the name or the request."""
import re
import numpy as np
from hypothesis import strategies as st, assume
import gens as G, texts as T
from props.c11 import iocell, match_cell, noghost
from engine import Facet, Prop, must, Violation

FLOAT = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def parse_yaml(text):
    """reader for the small YAML subset these files use (block and flow sequences of numbers, scalars)"""
    d = {}
    # join everything into a stream per top-level key
    cur, buf = None, []
    for line in text.split('\n'):
        m = re.match(r'^([A-Za-z_]+):(.*)$', line)
        if m:
            if cur is not None:
                d[cur] = '\n'.join(buf)
            cur, buf = m.group(1), [m.group(2)]
        elif line.strip():
            must(cur is not None, 'unreadable yaml: %r' % text)
            buf.append(line)
    if cur is not None:
        d[cur] = '\n'.join(buf)
    must(set(d) >= {'lattice', 'positions', 'numbers', 'zoom'}, 'keys %s in %r' % (sorted(d), text))
    num = lambda s: [float(x) for x in re.findall(r'(?<![\w.])' + FLOAT, re.sub(r'(^|\n)(\s*-\s+)+(?=\[)', r'\1 ', re.sub(r'(?m)^(\s*)((?:-\s+)+)(?=[-\d.\[])', lambda m: ' ' * len(m.group(0)), s)))]
    lat, pos, n, z = num(d['lattice']), num(d['positions']), num(d['numbers']), num(d['zoom'])
    must(len(lat) == 9 and len(pos) == 3 * len(n) and len(z) == 1, 'unreadable yaml: %r' % text)
    return {'lat': np.array(lat).reshape(3, 3), 'pos': np.array(pos).reshape(-1, 3), 'num': [int(x) for x in n], 'zoom': z[0],
            'comment': d.get('comment', '').strip().strip('\'"')}


def fl(x):
    return repr(round(float(x), 10))


def make_yaml(L, pos, num, zoom, style, comment):
    rows = lambda A: A
    if style['flow'] == 'flow':
        seq = lambda A: '[' + ', '.join('[' + ', '.join(fl(x) for x in r) + ']' for r in A) + ']'
        body = {'lattice': ' ' + seq(L), 'positions': ' ' + seq(pos), 'numbers': ' [' + ', '.join(str(int(x)) for x in num) + ']'}
    elif style['flow'] == 'mixed':
        seq = lambda A: '\n' + '\n'.join('- [' + ', '.join(fl(x) for x in r) + ']' for r in A)
        body = {'lattice': seq(L), 'positions': seq(pos), 'numbers': ' [' + ', '.join(str(int(x)) for x in num) + ']'}
    else:
        seq = lambda A: '\n' + '\n'.join('\n'.join(('  - - ' if i == 0 else '    - ') + fl(x) for i, x in enumerate(r)) for r in A)
        body = {'lattice': seq(L), 'positions': seq(pos), 'numbers': '\n' + '\n'.join('  - %d' % x for x in num)}
    out = []
    for k in style['order']:
        if k == 'comment':
            if comment is not None:
                out.append('comment: %s' % comment)
        elif k == 'zoom':
            out.append('zoom: %s' % zoom)
        else:
            out.append(k + ':' + body[k])
    return ('# a comment\n' if style['hash'] else '') + '\n'.join(out) + '\n'


@st.composite
def wcase(draw):
    return {'cell': draw(iocell()), 'module': draw(st.sampled_from(['io', 'stru'])), 'zoom': draw(st.sampled_from([None, 1, 2, 0.5])),
            'how': draw(st.sampled_from(['string', 'str', 'repr', 'file']))}


def formula(n):
    return ''.join('%s%d' % (G.Z2S[x], n.count(x)) for x in sorted(set(n)) if x)


def run_write(w, case):
    c = case['cell']
    r = w.call('yaml_write', **case)
    must(r['after'] == r['cell'], 'writing changed the cell')
    d = parse_yaml(r['text'])
    L, p, n = G.arrs(c)
    z = 1 if case['module'] == 'io' or case['zoom'] is None else case['zoom']
    must(d['zoom'] == z, 'zoom %s in the file, expected %s' % (d['zoom'], z))
    match_cell(L, p, n, d, 'the YAML written', 6e-7, 6e-7)
    must(d['comment'] == formula(c['num']), 'comment %r, the composition is %s' % (d['comment'], formula(c['num'])))
    q = w.call('yaml_read', text=r['text'], how='class')
    match_cell(L * z, p, n, q['cell'], 'YAML written and read back', 7e-5, 7e-5)
    return 0 in c['num'] or len(set(c['num'])) > 1, [case['module'], case['how']] + (['ghosts'] if 0 in c['num'] else [])


@st.composite
def rcase(draw):
    c = draw(iocell())
    style = {'flow': draw(st.sampled_from(['flow', 'mixed', 'block'])), 'hash': draw(st.booleans()),
             'order': list(draw(st.permutations(['comment', 'lattice', 'positions', 'numbers', 'zoom'])))}
    how = draw(st.sampled_from(['class', 'general', 'string', 'fmt_yaml', 'fmt_YAML']))
    return {'cell': c, 'zoom': draw(st.sampled_from(['1', '1.0', '2', '0.5', '3.25'])), 'style': style, 'comment': draw(st.sampled_from([None, 'abc', "'Ga2As2'"])),
            'how': how, 'name': draw(st.sampled_from(['a.yaml', 'b.YAML', 'x.y.yaml', 'POSCAR.yaml', 'c.yaml.bak']))}


def run_read(w, case):
    L, p, n = G.arrs(case['cell'])
    text = make_yaml(L, p, n, case['zoom'], case['style'], case['comment'])
    name = 'case.dat' if case['how'].startswith('fmt') else case['name']
    r = w.call('yaml_read', text=text, how=case['how'], name=name)
    must(r['same'], 'reading changed the file')
    match_cell(L * float(case['zoom']), p, n, r['cell'], 'YAML read (zoom %s)' % case['zoom'], 7e-5, 7e-5)
    return len(set(n.tolist())) > 1 or float(case['zoom']) != 1, [case['style']['flow'], case['how'], 'zoom' + case['zoom']]


NAMES = [('a.yaml', None, None, 'yaml'), ('b.YAML', None, None, 'yaml'), ('x.vasp', None, None, 'vasp'), ('x.VASP', None, None, 'vasp'),
         ('POSCAR', None, None, 'vasp'), ('POSCAR_12', None, None, 'vasp'), ('old_POSCAR', None, None, 'vasp'),
         ('plain', 'yaml', 'yaml', 'yaml'), ('plain', 'vasp', 'vasp', 'vasp'), ('data.txt', 'VASP', 'Vasp', 'vasp'), ('data.txt', 'Yaml', 'YAML', 'yaml'),
         ('a.yaml', 'yaml', None, 'yaml'), ('c.vasp', 'vasp', None, 'vasp'), (None, 'vasp', None, 'vasp'), (None, 'yaml', None, 'yaml'), (None, 'VASP', None, 'vasp')]


@st.composite
def gcase(draw):
    c = draw(iocell())
    n, f, rf, k = draw(st.sampled_from(NAMES))
    return {'cell': c, 'name': n, 'fmt': f, 'rfmt': rf, 'kind': k}


def run_general(w, case):
    r = w.call('general_roundtrip', cell=case['cell'], name=case['name'], fmt=case['fmt'], rfmt=case['rfmt'])
    must(r['after'] == r['cell'], 'writing changed the cell')
    c = case['cell']
    L, p, n = G.arrs(c)
    text = r['text']
    if case['name'] is None:
        must(r['files'] == [], 'files appeared: %s' % r['files'])
        text = text.rstrip('\n') + '\n'
    else:
        must(r['files'] == [case['name']], 'files %s instead of %s' % (r['files'], case['name']))
    if case['kind'] == 'vasp':
        d = T.parse_poscar(text)
        L, p, n = noghost(c)
    else:
        d = parse_yaml(text)
    match_cell(L, p, n, d, 'the %s file %s' % (case['kind'], case['name']), 6e-7, 6e-7)
    if case['name'] is not None:
        match_cell(L, p, n, r['back'], 'read back from %s' % case['name'], 7e-5, 7e-5)
    return True, [case['kind'], 'stdout' if case['name'] is None else ('byfmt' if case['fmt'] else 'byname')]


PROP = Prop('C12', [Facet('write', wcase(), run_write, 900), Facet('read', rcase(), run_read, 900), Facet('dispatch', gcase(), run_general, 800)],
            'Crystals as in C11 with vacancies; both YAML writers, reading of block/flow/mixed texts in any key order with zoom; '
            'GeneralIO with every kind of name, explicit format in any letter case, standard output. Oracle: own YAML-subset '
            'reader/writer and POSCAR reader; sites matched modulo the lattice within 6 (write) and 4 (read) decimals. '
            'Non-trivial: several elements, vacancies or a zoom (dispatch: every case).',
            ['name and explicit format do not contradict each other'])
