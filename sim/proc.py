"""Running simulated processes: one forked child per process incarnation."""
import gc
import os
import pickle
import random
import select
import shutil
import signal
import struct
import time
import traceback

import numpy as np

from . import boot, world
from .world import Choices, StepCap, World, real

HANG_S = float(os.environ.get('PYANEN_SIM_HANG', '60'))    # a process that uses no processor time for this long is stuck
HANG_CPU = 3 * HANG_S                                      # and so is one that uses this much without an answer


class HarnessError(Exception):
    pass


def cpu(pid):
    """Processor seconds a process has used so far (its own and those of children it waited for)."""
    try:
        with real.open('/proc/%d/stat' % pid) as f:
            a = f.read().rpartition(')')[2].split()
        return sum(map(int, a[11:15])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError):
        return 0.0


class Outcome:
    def __init__(self):
        self.msgs, self.how, self.info = [], None, {}

    @property
    def results(self):
        return [m[1:] for m in self.msgs if m[0] == 'r']


class Child:
    def __init__(self, root, plan, proc, inc, faults, body, multi, start_method, env):
        r1, w1 = os.pipe()       # child -> parent
        r2, w2 = os.pipe()       # parent -> child
        self.out = Outcome()
        self.buf = b''
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r1)
                os.close(w2)
                _child(root, plan, proc, inc, faults, (w1, r2), body, multi, start_method, env)
            finally:
                real.exit(97)
        os.close(w1)
        os.close(r2)
        self.pid, self.rfd, self.wfd = pid, r1, w2
        self.proc = proc

    def read_msg(self):
        """Next message, or None at end of file.  TimeoutError when the process is stuck: judged by the processor time it
        uses, not by the clock, because the machine may be busy."""
        start = last = None
        while True:
            if len(self.buf) >= 8:
                n = struct.unpack('<Q', self.buf[:8])[0]
                if len(self.buf) >= 8 + n:
                    m = pickle.loads(self.buf[8:8 + n])
                    self.buf = self.buf[8 + n:]
                    return m
            rd, _, _ = select.select([self.rfd], [], [], HANG_S)
            if not rd:
                now = cpu(self.pid)
                if start is None:
                    start = now
                elif now - last < 0.1 or now - start > HANG_CPU:
                    raise TimeoutError
                last = now
                continue
            b = os.read(self.rfd, 1 << 20)
            if not b:
                return None
            self.buf += b

    def run_until_yield(self):
        """Read messages until the child waits for the baton (True) or has ended (False)."""
        while True:
            m = self.read_msg()
            if m is None:
                self.close()
                return False
            if m[0] == 'y':
                return True
            if m[0] == 'r':
                self.out.msgs.append(m)
            else:
                self.out.how, self.out.info = m[0], m[1]

    def go(self):
        os.write(self.wfd, b'g')

    def close(self, kill=False):
        if self.pid is None:
            return
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(self.rfd)
        os.close(self.wfd)
        _, st = os.waitpid(self.pid, 0)
        self.pid = None
        if self.out.how is None:
            self.out.how = 'signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)
        if self.out.how == 'harness':
            raise HarnessError(self.out.info.get('extra') or 'harness error in simulated process')


def _child(root, plan, proc, inc, faults, fds, body, multi, start_method, env):
    gc.disable()
    dn = os.open('/dev/null', os.O_RDWR)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    for d in ('cwd', 'home', 'tmp'):
        real_mkdirs(os.path.join(root, d))
    os.chdir(os.path.join(root, 'cwd'))
    for k in list(os.environ):
        if k.startswith('pyanen_'):
            del os.environ[k]
    os.environ.update(boot.DEFAULTS)
    os.environ['HOME'] = os.path.join(root, 'home')
    os.environ['TMPDIR'] = os.path.join(root, 'tmp')
    import tempfile
    tempfile.tempdir = os.path.join(root, 'tmp')
    for k, v in (env or {}).items():
        os.environ[k] = str(v)
    w = World(root, plan, proc, inc, faults, fds, start_method)
    world.W = w
    np.random.seed((int(plan.get('seed', 0)) * 7 + proc * 1009 + inc * 31 + 5) % (2 ** 32))
    random.seed('py-%s-%s-%s' % (plan.get('seed', 0), proc, inc))
    if multi:
        w.multi = True
        w.baton()
    try:
        extra = body(w)
        w.passthru += 1
        w.finish('end', extra)
    except StepCap as e:
        w.finish('stepcap', str(e))
    except BaseException:
        w.finish('harness', traceback.format_exc())


def real_mkdirs(p):
    try:
        real.mkdir(p)
    except FileExistsError:
        pass


def run(root, plan, body, proc=0, inc=0, faults=(), start_method=None, env=None, alt=False):
    """One simulated process, alone (alt: in the interpreter with the other hash seed)."""
    if alt:
        from . import alt as _alt
        return _alt.run(root=root, plan=plan, body=body, proc=proc, inc=inc, faults=faults, start_method=start_method, env=env)
    c = Child(root, plan, proc, inc, faults, body, False, start_method or plan.get('start_method', 'fork'), env)
    try:
        while c.run_until_yield():
            raise HarnessError('unexpected yield')
    except TimeoutError:
        c.close(kill=True)
        c.out.how = 'hang'
    finally:
        c.close(kill=True)
    return c.out


def run_multi(root, plan, bodies, faults=None, start_method=None, env=None, inc=0, watch=None):
    """Several simulated processes; exactly one runs at any time; the plan decides who."""
    ch = Choices(plan.get('psched', []))
    kids = [Child(root, plan, i, inc, (faults or {}).get(i, ()), b, True,
                  start_method or plan.get('start_method', 'fork'), env) for i, b in enumerate(bodies)]
    trace = []
    try:
        live = []
        for k in kids:
            if k.run_until_yield():
                live.append(k)
        cur, burst = None, 0
        while live:
            if cur in live and burst > 0:
                burst -= 1
            else:
                cur = live[ch.pick(len(live))]
                burst = plan.get('burst', 1) and ch.pick(plan.get('burst', 1) + 1)
            trace.append(cur.proc)
            cur.go()
            if not cur.run_until_yield():
                live.remove(cur)
            if watch:
                watch(cur.proc)
    except TimeoutError:
        for k in live:
            k.close(kill=True)
            k.out.how = 'hang'
    finally:
        for k in kids:
            k.close(kill=True)
    return [k.out for k in kids], trace


class Scratch:
    """A scratch directory for one plan; everything a simulated run touches is in here."""
    base = None
    n = 0

    def __init__(self, tag='p'):
        Scratch.n += 1
        self.root = os.path.join(Scratch.base, '%s%d_%d' % (tag, real.getpid(), Scratch.n))

    def __enter__(self):
        os.mkdir(self.root)
        return self.root

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)


def tree(root, rel=True):
    """{path: content bytes | None for a directory}, without the standard directories."""
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), root)] = None
        for n in [n for n in ds if os.path.islink(os.path.join(d, n))] + sorted(fs):
            if os.path.islink(os.path.join(d, n)):
                out[os.path.relpath(os.path.join(d, n), root)] = b'-> ' + os.fsencode(os.readlink(os.path.join(d, n)))
                continue
            with real.open(os.path.join(d, n), 'rb') as f:
                out[os.path.relpath(os.path.join(d, n), root)] = f.read()
    return out
