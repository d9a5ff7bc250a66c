#!/usr/bin/env python3-vt
"""Mutation campaign: which one-place edits of the code under test do the checks notice?

  mutate.py pool POOL.json [n]               draw cases of every facet once
  mutate.py run POOL.json OUT.jsonl [--files a.py,b.py] [--jobs 7] [--sample K] [--seed S]

Not a registered check; used to find gaps of the generators. Every mutant lives in a scratch copy of the package.
Run it as an unprivileged user: mutated file handling must not reach anything real."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'pbt'))
REPO = os.environ.get('MUT_REPO', '/repo')

FILES = {
    'ababe/stru/sogen.py': 'C01 C02 C03 C04 C05 C19',
    'ababe/stru/scaffold.py': 'C10 C04 C08 C09 C16 C17 C18 C25 C27 C05 C01',
    'ababe/stru/scaffold2d.py': 'C27 C25 C23 C22',
    'ababe/stru/site.py': 'C17 C18 C16',
    'ababe/stru/element.py': 'C26 C11 C12 C01',
    'ababe/stru/grid.py': 'C07 C08 C20',
    'ababe/stru/io.py': 'C11 C12 C20 C19',
    'ababe/stru/restriction.py': 'C14 C15 C19',
    'ababe/stru/clarifier.py': 'C16 C21',
    'ababe/stru/buckyball.py': 'C06',
    'ababe/io/io.py': 'C12 C11 C19 C21',
    'ababe/io/vasp.py': 'C11 C12 C19 C21',
    'ababe/io/yaml.py': 'C12 C19 C21',
    'ababe/mlearn/arrange.py': 'C23 C22',
    'ababe/mlearn/arrangeAgent.py': 'C23 C22',
    'ababe/mlearn/dsutils.py': 'C24 C23',
    'ababe/mlearn/mcts.py': 'C22',
    'ababe/cmdline/runabalib.py': 'C19 C20',
    'ababe/cmdline/runatilib.py': 'C21 C20',
    'ababe/cmdline/apps/atomclarifier.py': 'C21',
    'ababe/cmdline/apps/atomperturb.py': 'C21',
    'ababe/cmdline/apps/model.py': 'C19 C21 C20',
    'ababe/cmdline/apps/occupybiter.py': 'C19',
    'ababe/cmdline/apps/occupymaker.py': 'C19',
    'ababe/cmdline/apps/occupymakert.py': 'C19',
    'ababe/cmdline/apps/occupytenter.py': 'C19',
    'ababe/cmdline/apps/superlattice.py': 'C20',
}


def pool(path, n):
    import engine
    from hypothesis import given, settings, HealthCheck, Phase, seed
    out = {}
    for pid in sorted({p for v in FILES.values() for p in v.split()}):
        for f in engine.load(pid).facets:
            k = min(n, f.quick) if f.quick > 20 else 1
            cs = list(f.fixed)[:n]

            @seed(12345)
            @settings(max_examples=k, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])
            @given(f.strategy)
            def g(c):
                cs.append(c)
            if f.strategy is not None and f.quick:
                g()
            out.setdefault(pid, {})[f.name] = cs
            print(pid, f.name, len(cs), flush=True)
    json.dump(out, open(path, 'w'))


class M(ast.NodeTransformer):
    """applies the k-th possible mutation, counting in visiting order"""
    def __init__(self, k):
        self.k, self.i, self.what = k, -1, None

    def hit(self, node, what):
        self.i += 1
        if self.i == self.k:
            self.what = '%d: %s' % (node.lineno, what)
            return True
        return False

    def visit_Compare(self, n):
        self.generic_visit(n)
        swap = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
        for o in swap.get(type(n.ops[0]), []):
            if self.hit(n, '%s -> %s' % (type(n.ops[0]).__name__, o.__name__)):
                n = copy.deepcopy(n)
                n.ops[0] = o()
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult, ast.Mod: ast.Add, ast.Pow: ast.Mult}
        o = swap.get(type(n.op))
        if o and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            if self.hit(n, '%s -> %s' % (type(n.op).__name__, o.__name__)):
                n.op = o()
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.hit(n, 'and/or swapped'):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        elif self.hit(n, 'first operand dropped'):
            return n.values[1]
        elif self.hit(n, 'last operand dropped'):
            return n.values[0]
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Not, ast.USub)) and self.hit(n, 'unary operator dropped'):
            return n.operand
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            if self.hit(n, '%s flipped' % n.value):
                return ast.copy_location(ast.Constant(not n.value), n)
        elif isinstance(n.value, int):
            for d in (1, -1):
                if self.hit(n, '%d -> %d' % (n.value, n.value + d)):
                    return ast.copy_location(ast.Constant(n.value + d), n)
        elif isinstance(n.value, float):
            for d in (1.3, 0.5, 10):
                if self.hit(n, '%g -> %g' % (n.value, n.value * d)):
                    return ast.copy_location(ast.Constant(n.value * d), n)
        elif isinstance(n.value, str) and n.value and '\n' not in n.value:
            if self.hit(n, '%r changed' % n.value):
                return ast.copy_location(ast.Constant('x' + n.value), n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if self.hit(n, 'condition -> True'):
            n.test = ast.copy_location(ast.Constant(True), n)
        elif self.hit(n, 'condition -> False'):
            n.test = ast.copy_location(ast.Constant(False), n)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.hit(n, 'body only'):
            return n.body
        if self.hit(n, 'else only'):
            return n.orelse
        return n

    def stmt(self, n):
        self.generic_visit(n)
        doc = isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
        if not doc and self.hit(n, 'statement dropped: ' + ast.unparse(n)[:60]):
            return ast.copy_location(ast.Pass(), n)
        return n
    visit_Assign = visit_AugAssign = visit_Delete = visit_Break = visit_Continue = visit_Raise = stmt

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return n
        return self.stmt(n)

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and self.hit(n, 'return None'):
            n.value = ast.copy_location(ast.Constant(None), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        for i, k in enumerate(n.keywords):
            if self.hit(n, 'keyword %s dropped' % k.arg):
                n.keywords = n.keywords[:i] + n.keywords[i + 1:]
                return n
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
        if nm in ('sorted', 'set', 'list', 'abs', 'copy', 'deepcopy', 'round', 'floor', 'around', 'rint') and n.args and self.hit(n, nm + '() dropped'):
            return n.args[0]
        if nm == 'copy' and not n.args and isinstance(n.func, ast.Attribute) and self.hit(n, '.copy() dropped'):
            return n.func.value
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if self.hit(n, 'loop runs once'):
            n.body = n.body + [ast.copy_location(ast.Break(), n)]
        return n


def mutants(f):
    src = open(os.path.join(REPO, f)).read()
    k = 0
    while True:
        m = M(k)
        t = m.visit(ast.parse(src))
        if m.what is None:
            return
        # in the class of table data every symbol is a mutation; leave those out
        yield {'file': f, 'k': k, 'what': m.what}
        k += 1


def text(f, k):
    m = M(k)
    t = m.visit(ast.parse(open(os.path.join(REPO, f)).read()))
    return ast.unparse(ast.fix_missing_locations(t))


def judge(f, d, cases):
    """first facet that notices, or None"""
    import engine, rpc
    todo = []
    for i, pid in enumerate(FILES[f].split()):
        p = engine.load(pid)
        for fc in p.facets:
            todo.append([pid, fc, None, cases[pid][fc.name][:100 if i < 2 else 30]])
    step = 4
    w = rpc.Worker()
    try:
        while any(t[3] for t in todo):
            for t in todo:
                pid, fc, R, cs = t
                fc.timeout = min(fc.timeout, 25)
                for c in cs[:step]:
                    try:
                        engine.run_case(w, fc, c)
                    except engine.Violation as v:
                        return '%s/%s %s' % (pid, fc.name, str(v)[:120])
                    except rpc.HarnessError as v:
                        return 'import: %s' % str(v)[-100:]
                t[3] = cs[step:]
            step *= 3
    finally:
        w.stop()
    return None


def one(arg):
    m, path = json.loads(arg[0]), arg[1]
    d = os.environ['VERIF_REPO']
    open(os.path.join(d, m['file']), 'w').write(text(m['file'], m['k']))
    r = judge(m['file'], d, json.load(open(path)))
    print(json.dumps(r))


def main(a):
    if a[0] == 'pool':
        return pool(a[1], int(a[2]) if len(a) > 2 else 60)
    if a[0] == 'one':
        return one(a[1:])
    opt = dict(zip(a[3::2], a[4::2]))
    files = opt.get('--files', ','.join(FILES)).split(',')
    jobs = int(opt.get('--jobs', 7))
    ms = [m for f in files for m in mutants(f)]
    rs = random.Random(int(opt.get('--seed', 1)))
    rs.shuffle(ms)
    if '--sample' in opt:
        ms = ms[:int(opt['--sample'])]
    if '--done' in opt:               # results of an earlier run: those are not tried again
        done = {(x['file'], x['k']) for x in map(json.loads, open(opt['--done']))}
        ms = [m for m in ms if (m['file'], m['k']) not in done]
    if '--skip' in opt:
        import re
        ms = [m for m in ms if not re.search(opt['--skip'], m['what'])]
    print(len(ms), 'mutants', flush=True)
    if '--list' in opt:
        return
    import concurrent.futures as cf
    out = open(a[2], 'a')

    def go(m):
        d = tempfile.mkdtemp(prefix='mut-')
        try:
            shutil.copytree(os.path.join(REPO, 'ababe'), os.path.join(d, 'ababe'), ignore=shutil.ignore_patterns('__pycache__', 'tests'))
            t = time.time()
            os.mkdir(os.path.join(d, 's'))
            env = dict(os.environ, VERIF_REPO=d, VERIF_SCRATCH=os.path.join(d, 's'), TMPDIR=os.path.join(d, 's'))
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), 'one', json.dumps(m), a[1]], env=env, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, universal_newlines=True, start_new_session=True)
            try:
                o, _ = p.communicate(timeout=600)
                try:
                    m['by'] = json.loads(o.strip().split('\n')[-1])
                except ValueError:
                    m['by'] = 'ERROR ' + o[-300:]
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                m['by'] = 'TIMEOUT'
            m['s'] = round(time.time() - t, 1)
            return m
        finally:
            shutil.rmtree(d, ignore_errors=True)
    n = k = 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        for x in cf.as_completed([ex.submit(go, m) for m in ms]):
            m = x.result()
            n += 1
            out.write(json.dumps(m) + '\n')
            out.flush()
            if m['by'] is None or m['by'][:5] in ('ERROR', 'TIMEO'):
                k += 1
                print('%d/%d' % (k, n), m['file'], m['what'], m['by'], m['s'], flush=True)
    print('survivors %d of %d' % (k, n))


if __name__ == '__main__':
    main(sys.argv[1:])
