"""Client side of the PyPy worker that executes the code under test."""
import json, os, select, subprocess, tempfile, shutil, time

PYPY = '/opt/pvenv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


SLOWEST = [0.0]
TICK = os.sysconf('SC_CLK_TCK')


class Remote(Exception):
    """The code under test raised."""
    def __init__(self, d):
        self.type, self.msg, self.where = d['exc'], d['msg'], d.get('where')
        self.in_repo = d.get('in_repo')
        Exception.__init__(self, '%s: %s at %s' % (self.type, self.msg, self.where))


class Hang(Exception):
    pass


class Died(Exception):
    pass


class HarnessError(Exception):
    pass


class Worker:
    def __init__(self, call_timeout=60):
        self.timeout = call_timeout
        self.p = None
        self.spg = False       # spglib itself gave up on a well-formed cell since this was last cleared

    def start(self):
        self.dir = tempfile.mkdtemp(prefix='ababe-w-', dir=os.environ.get('VERIF_SCRATCH') or None)
        r, w = os.pipe()
        env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'PYTHONHASHSEED': '0', 'LANG': 'C.UTF-8',
               'LC_ALL': 'C.UTF-8', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
               'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(self.dir, 'pyc'),
               'VERIF_REPO': REPO, 'HOME': self.dir, 'TMPDIR': self.dir, 'COLUMNS': '80'}
        self.err = open(os.path.join(self.dir, 'stderr'), 'w+')
        self.p = subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(HERE, 'worker.py'), str(w)],
                                  stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err,
                                  pass_fds=[w], env=env, cwd=self.dir)
        os.close(w)
        self.r = r
        self.buf = b''
        try:
            rep = self._read(150)
        except Hang:
            self.stop()
            raise HarnessError('worker did not start in time')
        if rep is None or not rep.get('ready'):
            self.err.seek(0)
            t = self.err.read()[-1500:]
            self.stop()
            raise HarnessError('worker did not start: ' + t)

    def _read(self, timeout):
        # a call hangs when it has used the time on the processor (the machine may be busy), or waits for four times as long
        t0, c0 = time.monotonic(), self._cpu()
        while b'\n' not in self.buf:
            rr, _, _ = select.select([self.r], [], [], min(timeout, 5))
            if not rr:
                if self._cpu() - c0 > timeout or time.monotonic() - t0 > 4 * timeout:
                    raise Hang()
                continue
            d = os.read(self.r, 1 << 20)
            if not d:
                return None
            self.buf += d
        SLOWEST[0] = max(SLOWEST[0], time.monotonic() - t0)
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def _cpu(self):
        try:
            with open('/proc/%d/stat' % self.p.pid) as f:
                x = f.read().rsplit(')', 1)[1].split()
            return (int(x[11]) + int(x[12])) / TICK
        except (OSError, IndexError, ValueError):
            return 0.0

    def call(self, op, seed=0, timeout=None, **args):
        if self.p is None:
            self.start()
        # keep the progress-bar chatter from filling the disk
        try:
            self.err.seek(0)
            self.err.truncate()
        except Exception:
            pass
        try:
            self.p.stdin.write((json.dumps({'op': op, 'args': args, 'seed': seed}) + '\n').encode())
            self.p.stdin.flush()
            rep = self._read(timeout or self.timeout)
        except BrokenPipeError:
            rep = None
        except Hang:
            self.stop()
            raise
        if rep is None:
            self.stop()
            raise Died('worker process died during %s' % op)
        self.spg = self.spg or bool(rep.get('spg'))
        if 'exc' in rep:
            raise Remote(rep)
        return rep['ok']

    def stop(self):
        if self.p is None:
            return
        try:
            self.p.kill()
        except Exception:
            pass
        self.p.wait()
        for c in (lambda: self.p.stdin.close(), lambda: os.close(self.r), lambda: self.err.close()):
            try:
                c()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)
        self.p = None
