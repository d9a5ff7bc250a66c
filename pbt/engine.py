"""Property runner: generation (Hypothesis), sharding, shrinking, replay files, evidence."""
import hashlib, importlib, json, os, subprocess, sys, tempfile, time, shutil, signal, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import rpc
from rpc import Remote, Hang, Died, HarnessError


UNREADABLE = (ValueError, LookupError, TypeError, AttributeError, AssertionError, ArithmeticError)


class Violation(Exception):
    """The property does not hold on this case."""


def must(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Facet:
    """One generated check of a property: strategy of JSON-able cases + oracle.

    run(w, case) drives the worker w and raises Violation, or returns (nontrivial: bool, labels: list[str])."""
    def __init__(self, name, strategy, run, quick, thorough=None, fixed=(), timeout=60):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 12
        self.fixed = list(fixed)
        self.timeout = timeout


class Prop:
    def __init__(self, pid, facets, rule, assumptions=()):
        self.id, self.facets, self.rule, self.assumptions = pid, facets, rule, list(assumptions)

    def facet(self, name):
        return [f for f in self.facets if f.name == name][0]


def load(pid):
    return importlib.import_module('props.' + pid.lower()).PROP


def run_case(w, facet, case):
    w.spg = False
    try:
        return judge_case(w, facet, case)
    except Violation:
        if w.spg:
            return False, ['spglib finds no space group']
        raise


def judge_case(w, facet, case):
    """Judge one case. Exceptions of the code under test on in-domain input are violations."""
    w.timeout = facet.timeout
    try:
        return facet.run(w, case)
    except Remote as e:
        raise Violation('the code raised %s' % e)
    except Hang:
        raise Violation('the call did not return within %d s (it takes well under a second on the reference tree)'
                        % facet.timeout)
    except Died as e:
        raise Violation('the interpreter died: %s' % e)
    except UNREADABLE as e:
        # the oracle (an independent reader of what the code returned or wrote) could not make sense of it
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation('the output could not be understood: %s: %s (%s:%d)'
                        % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))


def jhash(x):
    return hashlib.blake2b(json.dumps(x, sort_keys=True).encode(), digest_size=8).hexdigest()


WORKER_LIFE = 400       # cases per worker process; bounds the history a replay may need


class Runner:
    """Runs cases of one facet in one worker, remembering the history of the worker."""
    def __init__(self, facet):
        self.f = facet
        self.w = rpc.Worker()
        self.hist = []

    def run(self, case):
        if len(self.hist) >= WORKER_LIFE:
            self.w.stop()
        if self.w.p is None:
            self.hist = []
        self.hist.append(case)
        return run_case(self.w, self.f, case)

    def close(self):
        self.w.stop()


def shard_main(pid, tier, seed, shard, nshards, outdir):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    prop = load(pid)
    out = {'evaluations': 0, 'rejected': 0, 'hashes': {}, 'labels': {}, 'samples': [], 'facets': {}, 'error': None}
    failfile = os.path.join(outdir, 'fail-%d.json' % shard)
    best = {}

    def note(facet, case, v, hist):
        size = len(json.dumps(case))
        if facet.name not in best or size < best[facet.name]:
            best[facet.name] = size
            with open(failfile + '.tmp', 'w') as f:
                json.dump({'property': pid, 'facet': facet.name, 'case': case, 'message': str(v)[:3000],
                           'history': hist}, f)
            os.replace(failfile + '.tmp', failfile)

    for fi, facet in enumerate(prop.facets):
        total = facet.quick if tier == 'quick' else facet.thorough
        n = total // nshards + (1 if shard < total % nshards else 0)
        R = Runner(facet)
        st = {'cases': 0, 'nontrivial': 0, 'cpu_s': 0.0}
        t_f = time.monotonic()
        out['facets'][facet.name] = st
        state = {'shrinking': False}

        def one(case, facet=facet, st=st, R=R, state=state):
            h = jhash([facet.name, case])
            try:
                nt, labels = R.run(case)
            except Violation as v:
                # before believing it, see whether it stands alone in a fresh worker
                if not state['shrinking']:
                    state['shrinking'] = True
                note(facet, case, v, list(R.hist))
                raise
            if state['shrinking']:
                return
            out['evaluations'] += 1
            st['cases'] += 1
            for l in labels:
                l = facet.name + ':' + l
                out['labels'][l] = out['labels'].get(l, 0) + 1
            if nt:
                st['nontrivial'] += 1
                if h not in out['hashes']:
                    out['hashes'][h] = 1
                    if st['nontrivial'] <= 2 and shard < 2:
                        out['samples'].append({'facet': facet.name, 'case': case, 'labels': labels})

        try:
            failed = False
            for i, c in enumerate(facet.fixed):
                if i % nshards == shard:
                    try:
                        one(c)
                    except Violation:
                        failed = True
            if n and not failed and facet.strategy is not None:
                test = given(facet.strategy)(lambda case: one(case))
                test = hypothesis.seed(seed * 1000003 + shard * 7919 + fi * 101)(test)
                test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                                suppress_health_check=list(HealthCheck), print_blob=False,
                                phases=[Phase.generate, Phase.shrink])(test)
                try:
                    test()
                except Violation:
                    pass
                except Exception as e:
                    if isinstance(e, BaseExceptionGroup) or type(e).__name__.startswith('Flaky'):
                        if not state['shrinking']:
                            raise
                    else:
                        raise
        except HarnessError as e:
            out['error'] = 'harness: %s' % e
            break
        except Exception:
            out['error'] = traceback.format_exc()[-3000:]
            break
        finally:
            R.close()
            st['cpu_s'] = round(time.monotonic() - t_f, 1)
            st['slowest_call_s'] = round(rpc.SLOWEST[0], 1)
            rpc.SLOWEST[0] = 0.0
    out['hashes'] = list(out['hashes'])
    with open(os.path.join(outdir, 'out-%d.json.tmp' % shard), 'w') as f:
        json.dump(out, f)
    os.replace(os.path.join(outdir, 'out-%d.json.tmp' % shard), os.path.join(outdir, 'out-%d.json' % shard))


def confirm(fail):
    """Re-run a recorded failure in fresh processes. Returns a replay dict, or None if it does not reproduce."""
    prop = load(fail['property'])
    facet = prop.facet(fail['facet'])

    def attempt(cases):
        R = Runner(facet)
        try:
            for c in cases[:-1]:
                try:
                    R.run(c)
                except Violation:
                    pass
            try:
                R.run(cases[-1])
            except Violation as v:
                return str(v)
            return None
        finally:
            R.close()

    m = attempt([fail['case']])
    if m is not None:
        return {'property': fail['property'], 'facet': fail['facet'], 'cases': [fail['case']], 'message': m}
    h = fail.get('history') or []
    end = time.monotonic() + 150
    if len(h) > 1:
        m = attempt(h)
        if m is not None:
            # shorten the history: shortest failing suffix by halving, then drop single steps while time allows
            cur = h
            k = len(cur) // 2
            while k >= 1 and time.monotonic() < end:
                t = cur[k:]
                if len(t) >= 1 and attempt(t) is not None:
                    cur = t
                    k = len(cur) // 2
                else:
                    k //= 2
            i = 0
            while i < len(cur) - 1 and time.monotonic() < end and len(cur) < 40:
                t = cur[:i] + cur[i + 1:]
                if attempt(t) is not None:
                    cur = t
                else:
                    i += 1
            return {'property': fail['property'], 'facet': fail['facet'], 'cases': cur, 'message': m,
                    'note': 'needs this history of calls in one process'}
    return None


def replay(path):
    d = json.load(open(path))
    prop = load(d['property'])
    facet = prop.facet(d['facet'])
    R = Runner(facet)
    try:
        for c in d['cases'][:-1]:
            try:
                R.run(c)
            except Violation:
                pass
        try:
            R.run(d['cases'][-1])
        except Violation as v:
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            print(v)
            return 1
    finally:
        R.close()
    print('replay of %s holds' % path)
    return 0


def check(pid, tier, seed, nshards=None):
    t0 = time.monotonic()
    nshards = nshards or int(os.environ.get('VERIF_SHARDS', '8'))
    hard = float(os.environ.get('VERIF_BUDGET', '600' if tier == 'quick' else '14400'))
    shrink_budget = 40 if tier == 'quick' else 150
    prop = load(pid)
    outdir = tempfile.mkdtemp(prefix='ababe-%s-' % pid)
    env = dict(os.environ, PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', VERIF_SCRATCH=outdir)
    procs = []
    try:
        for i in range(nshards):
            procs.append(subprocess.Popen([sys.executable, os.path.join(VERIF, 'check.py'), '--shard', pid, tier,
                                           str(seed), str(i), str(nshards), outdir], env=env,
                                          start_new_session=True, cwd=VERIF))
        first_fail = None
        cut = False
        while any(p.poll() is None for p in procs):
            time.sleep(0.2)
            fails = [x for x in os.listdir(outdir) if x.startswith('fail-') and x.endswith('.json')]
            now = time.monotonic()
            if fails and first_fail is None:
                first_fail = now
            if first_fail is not None:
                owners = [int(x[5:-5]) for x in fails]
                if now - first_fail > shrink_budget or any(procs[o].poll() is not None for o in owners):
                    break
            if now - t0 > hard:
                cut = True
                break
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    # the shard's worker is in its process group
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    pass
                p.wait()
    outs, fails = [], []
    for i in range(nshards):
        p = os.path.join(outdir, 'out-%d.json' % i)
        if os.path.exists(p):
            outs.append(json.load(open(p)))
        p = os.path.join(outdir, 'fail-%d.json' % i)
        if os.path.exists(p):
            fails.append(json.load(open(p)))
    shutil.rmtree(outdir, ignore_errors=True)
    errors = [o['error'] for o in outs if o['error']]
    fails.sort(key=lambda d: (len(json.dumps(d['case'])), json.dumps(d['case'])))
    rep = None
    unconfirmed = 0
    for f in fails[:4]:
        rep = confirm(f)
        if rep:
            break
        unconfirmed += 1
    hashes, labels, facets, samples = set(), {}, {}, []
    ev = 0
    for o in outs:
        ev += o['evaluations']
        hashes.update(o['hashes'])
        for k, v in o['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in o['facets'].items():
            d = facets.setdefault(k, {'cases': 0, 'nontrivial': 0, 'cpu_s': 0.0, 'slowest_call_s': 0.0})
            for kk in v:
                d[kk] = max(d[kk], v[kk]) if kk == 'slowest_call_s' else round(d[kk] + v[kk], 1)
        samples += o['samples']
    seen, keep = {}, []
    for s in samples:
        if seen.get(s['facet'], 0) < 2:
            seen[s['facet']] = seen.get(s['facet'], 0) + 1
            keep.append(s)
    wall = time.monotonic() - t0
    evidence = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
                'coverage': {'evaluations': ev, 'distinct_nontrivial': len(hashes), 'rule': prop.rule,
                             'samples': keep, 'facets': facets, 'labels': dict(sorted(labels.items())),
                             'shards': nshards, 'shards_completed': len(outs), 'exhaustive': False,
                             'stopped_by_budget': cut, 'unconfirmed_failures': unconfirmed},
                'assumptions': prop.assumptions, 'wall_s': round(wall, 2), 'violations': 1 if rep else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if rep:
        rd = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (pid, jhash(rep['cases'])[:10]))
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('facet %s: %s' % (rep['facet'], rep['message']))
        print('smallest failing case: %s' % json.dumps(rep['cases'][-1])[:2000])
        return 1
    if errors:
        print('HARNESS ERROR in %s: %s' % (pid, errors[0]))
        return 2
    if len(outs) < nshards and not cut and not fails:
        print('HARNESS ERROR in %s: %d of %d shards gave no result' % (pid, nshards - len(outs), nshards))
        return 2
    if unconfirmed:
        print('note: %d failure(s) did not reproduce in a fresh process and were not reported: %s'
              % (unconfirmed, fails[0]['message'][:500]))
    print('%s %s: held on %d cases (%d distinct non-trivial), %.1f s' % (pid, tier, ev, len(hashes), wall))
    return 0
