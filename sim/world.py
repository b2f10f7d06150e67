"""The simulated process: points, faults, choices, virtual clock and entropy, file-system seam.

A World exists only inside a forked simulated process.  Every intercepted operation calls
World.point(); the plan (a JSON value) decides there whether a fault fires and, when several
simulated processes run, the scheduler in the parent decides who proceeds.
"""
import builtins
import errno
import io
import os
import pickle
import random
import struct
import sys
import time


class WorkerDied(BaseException):
    """A simulated worker process was killed; unwinding code must have no further effect."""


class StepCap(BaseException):
    """The simulated process made more steps than any run of this workload needs."""


class real:
    """Original functions, captured once in the zygote."""
    open = builtins.open
    os_open = os.open
    os_write = os.write
    os_read = os.read
    replace = os.replace
    rename = os.rename
    link = os.link
    symlink = os.symlink
    remove = os.remove
    unlink = os.unlink
    mkdir = os.mkdir
    rmdir = os.rmdir
    truncate = os.truncate
    stat = os.stat
    lstat = os.lstat
    listdir = os.listdir
    scandir = os.scandir
    fsync = os.fsync
    getpid = os.getpid
    urandom = os.urandom
    readlink = os.readlink
    time = time.time
    exit = os._exit


W = None  # the current World of this (simulated) process


def current():
    return W


class Choices:
    """A stream of scheduling choices taken from the plan; [] means 'always the first'."""

    def __init__(self, seq, salt=0):
        self.seq, self.i, self.salt = list(seq), 0, salt

    def pick(self, n):
        if n <= 1:
            return 0
        i = self.i
        self.i += 1
        if not self.seq:
            return 0
        length = len(self.seq)
        return (self.seq[i % length] + (i // length) * 7919 + self.salt) % n


STEP_CAP = 400_000


class World:
    def __init__(self, root, plan, proc=0, inc=0, faults=(), conn=None, start_method='fork'):
        self.root = root
        self.plan = plan
        self.proc, self.inc = proc, inc
        self.faults = [dict(f) for f in faults]
        self.conn = conn                      # (send_fd, recv_fd)
        self.multi = False
        self.choices = Choices(plan.get('sched', []), salt=proc * 31 + inc * 17)
        self.fsch = Choices(plan.get('fsched', []), salt=proc * 13 + inc * 7)
        self.counters = {}
        self.total = 0
        self.log = []
        self.fired = []
        self.op_fired = []
        self.escapes = []
        self.worker = None
        self.dead = False
        self.disk_full = False
        self.passthru = 1                     # >0: seams are transparent
        self.ray = None
        self.ray_user = False
        self.clock = float(plan.get('clock', 1.7e9))
        self.ent = random.Random('ent-%s-%s-%s' % (plan.get('seed', 0), proc, inc))
        self.start_method = start_method
        self.n_tasks = 0
        self.timeouts = 0
        self.forks = 0
        self.stats = {}

    # -- messages ---------------------------------------------------------
    def send(self, msg):
        b = pickle.dumps(msg, protocol=5)
        data = struct.pack('<Q', len(b)) + b
        fd = self.conn[0]
        while data:
            n = real.os_write(fd, data)
            data = data[n:]

    def baton(self):
        self.send(('y',))
        b = real.os_read(self.conn[1], 1)
        if b != b'g':
            real.exit(3)

    # -- points -----------------------------------------------------------
    def hit(self, name, k=1):
        self.stats[name] = self.stats.get(name, 0) + k

    def point(self, cls, detail=''):
        """Returns the fault to apply here, or None.  May raise WorkerDied in a dead worker."""
        if self.dead:
            raise WorkerDied()
        self.total += 1
        self.clock += 0.001
        if self.total > STEP_CAP:
            raise StepCap('more than %d simulated steps' % STEP_CAP)
        where = 'w' if self.worker is not None else 'm'
        self.log.append('%s %s %s' % (where, cls, detail))
        if self.multi and cls != 'fs.close':
            self.baton()
        keys = []
        parts = cls.split('.')
        for i in range(1, len(parts) + 1):
            p = '.'.join(parts[:i])
            keys += [p, where + ':' + p]
        keys += ['any', where + ':any']
        for k in keys:
            self.counters[k] = self.counters.get(k, 0) + 1
        for f in self.faults:
            if f.get('done') or f['cls'] not in keys or self.counters[f['cls']] != f['n']:
                continue
            if not self.applicable(f, cls):
                f['done'] = True
                self.hit('fault-misplaced')
                continue
            f['done'] = True
            self.fired.append((f['kind'], cls))
            self.op_fired.append(f['kind'])
            self.log.append('FAULT %s at %s' % (f['kind'], cls))
            self.hit('fault.%s@%s' % (f['kind'], cls))
            return f
        return None

    def applicable(self, f, cls):
        k = f['kind']
        if k in ('enospc', 'eio', 'eacces', 'enoent'):
            return cls.startswith('fs.') and cls not in ('fs.stat', 'fs.close', 'fs.list')
        if k in ('exc', 'die', 'die_after'):
            return cls == 'task'
        if k == 'fail':
            return cls in ('ray.init', 'ray.put')
        if k == 'intr':
            return self.worker is None and cls != 'fs.close'
        return True  # crash

    def apply(self, f, path=''):
        if f is None:
            return
        k = f['kind']
        if k == 'crash':
            if self.worker is not None:
                self.dead = True
                raise WorkerDied()
            self.finish('crash')
        if k == 'intr':
            raise KeyboardInterrupt()
        if k == 'enospc':
            self.disk_full = True
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        if k == 'eio':
            raise OSError(errno.EIO, os.strerror(errno.EIO), path)
        if k == 'eacces':
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)
        raise RuntimeError('fault kind %r not applicable here' % k)

    # -- allocation failures ------------------------------------------------
    def tracer(self, src):
        """A trace function: every line of the code under test is a point where an allocation may fail."""
        def line(frame, event, arg):
            if event == 'line' and not self.passthru and not self.dead:
                self.mem_point()
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(src) else None
        return call

    def mem_point(self):
        for k in ('mem', ('w:' if self.worker is not None else 'm:') + 'mem'):
            n = self.counters[k] = self.counters.get(k, 0) + 1
            for f in self.faults:
                if f['cls'] == k and not f.get('done') and f['n'] == n:
                    f['done'] = True
                    self.fired.append((f['kind'], k))
                    self.op_fired.append(f['kind'])
                    self.log.append('FAULT %s at %s %d' % (f['kind'], k, n))
                    self.hit('fault.%s@%s' % (f['kind'], k))
                    if f['kind'] == 'intr':
                        raise KeyboardInterrupt
                    raise MemoryError('simulated allocation failure')

    def at(self, cls, detail='', path=''):
        f = self.point(cls, detail)
        if f is not None:
            self.apply(f, path)

    def finish(self, how, extra=None):
        """Report and end this simulated process (also used for a crash: no unwinding)."""
        self.send((how, dict(log=self.log, fired=self.fired, counters=self.counters,
                             total=self.total, stats=self.stats, escapes=self.escapes, extra=extra)))
        real.exit(0)

    def slow(self, timeout):
        """Is what the caller waits for slower than the limit it gave?  At most 40 times per process."""
        if timeout is None or self.timeouts >= 40 or not self.choices.seq:
            return False
        if self.choices.pick(3):
            return False
        self.timeouts += 1
        self.clock += max(0.0, timeout)
        self.hit('timeout')
        return True

    # -- entropy and clock ------------------------------------------------
    def urandom(self, n):
        return self.ent.randbytes(n)

    def now(self):
        return self.clock


class off:
    """Context: seams transparent (harness code)."""

    def __enter__(self):
        if W is not None:
            W.passthru += 1

    def __exit__(self, *a):
        if W is not None:
            W.passthru -= 1


# ---------------------------------------------------------------------------
# file-system seam
# ---------------------------------------------------------------------------

def _active():
    return W is not None and not W.passthru


def _fspath(p, dir_fd=None):
    if isinstance(p, int):
        try:
            return real.readlink('/proc/self/fd/%d' % p)
        except OSError:
            return ''
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if dir_fd is not None and not p.startswith('/'):
        p = _fspath(dir_fd) + '/' + p
    elif not p.startswith('/'):
        p = os.getcwd() + '/' + p
    return os.path.normpath(p)


def _inside(ap):
    return ap == W.root or ap.startswith(W.root + '/')


def _rel(ap):
    return ap[len(W.root):] or '/'


_OUT_OK = ('/dev/', '/proc/')


def _escape(what, ap):
    W.escapes.append('%s %s' % (what, ap))
    W.log.append('ESCAPE %s %s' % (what, ap))
    raise PermissionError(errno.EPERM, 'simulator: outside the scratch directory', ap)


class SimRaw(io.FileIO):
    _sim_path = ''

    def write(self, b):
        if not _active():
            return super().write(b)
        w = W
        if w.dead:
            return len(b)
        mv = memoryview(b).cast('B')
        if w.disk_full:
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self._sim_path)
        f = w.point('fs.write', '%s %d' % (self._sim_path, len(mv)))
        if f is not None:
            n = int(len(mv) * f.get('frac', 0.0))
            if n:
                super().write(mv[:n])
                w.hit('torn-write')
            w.apply(f, self._sim_path)
        if len(mv) > 1 and w.plan.get('short') and w.fsch.pick(3) == 1:
            w.hit('short-write')
            return super().write(mv[:1 + w.fsch.pick(len(mv) - 1)])
        return super().write(mv)

    def _rd(self):
        if _active() and not W.dead:
            W.at('fs.read', self._sim_path, self._sim_path)

    def readinto(self, b):
        self._rd()
        return super().readinto(b)

    def readall(self):
        self._rd()
        return super().readall()

    def read(self, *a):
        self._rd()
        return super().read(*a)

    def truncate(self, *a):
        if _active():
            if W.dead:
                return 0
            W.at('fs.trunc', self._sim_path, self._sim_path)
        return super().truncate(*a)

    def close(self):
        if not self.closed and _active() and not W.dead and self.writable():
            try:
                f = W.point('fs.close', self._sim_path)
                if f is not None:
                    W.apply(f, self._sim_path)
            finally:
                super().close()
        else:
            super().close()


_BUF = (64, 512, 8192, 1 << 20)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if not _active():
        return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    ap = _fspath(file)
    writing = any(c in mode for c in 'wax+')
    if not _inside(ap):
        if writing and not isinstance(file, int) and not ap.startswith(_OUT_OK):
            _escape('open(%s)' % mode, ap)
        return real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        W.at('fs.open_w' if writing else 'fs.open_r', _rel(ap), ap)
    raw_mode = mode.replace('b', '').replace('t', '').replace('U', '') or 'r'
    raw = SimRaw(file, raw_mode, closefd, opener)
    raw._sim_path = _rel(ap)
    try:
        if 'b' in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else _BUF[W.fsch.pick(len(_BUF)) if W.plan.get('fsched') else 2]
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if _active():
        ap = _fspath(path, dir_fd)
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if not _inside(ap):
            if writing and not ap.startswith(_OUT_OK):
                _escape('os.open', ap)
        else:
            W.at('fs.open_w' if writing else 'fs.open_r', _rel(ap), ap)
    return real.os_open(path, flags, mode, dir_fd=dir_fd)


def sim_os_write(fd, data):
    if _active():
        ap = _fspath(fd)
        if _inside(ap):
            if W.dead:
                return len(data)
            if W.disk_full:
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            f = W.point('fs.write', '%s %d' % (_rel(ap), len(data)))
            if f is not None:
                n = int(len(data) * f.get('frac', 0.0))
                if n:
                    real.os_write(fd, data[:n])
                W.apply(f, ap)
    return real.os_write(fd, data)


def _mut1(name, cls):
    fn = getattr(real, name)

    def op(path, *a, dir_fd=None, **k):
        if _active():
            ap = _fspath(path, dir_fd)
            if not _inside(ap):
                _escape(name, ap)
            W.at(cls, _rel(ap), ap)
        if dir_fd is not None:
            k['dir_fd'] = dir_fd
        return fn(path, *a, **k)
    op.__name__ = name
    return op


def _mut2(name, cls):
    fn = getattr(real, name)

    def op(src, dst, **k):
        if _active():
            a, b = _fspath(src, k.get('src_dir_fd')), _fspath(dst, k.get('dst_dir_fd'))
            for ap in (a, b) if name != 'symlink' else (b,):
                if not _inside(ap):
                    _escape(name, ap)
            W.at(cls, '%s -> %s' % (_rel(a) if _inside(a) else a, _rel(b)), a)
        return fn(src, dst, **k)
    op.__name__ = name
    return op


def sim_stat(path, *, dir_fd=None, follow_symlinks=True):
    if _active() and not isinstance(path, int):
        ap = _fspath(path, dir_fd)
        if _inside(ap):
            W.at('fs.stat', _rel(ap), ap)
    return real.stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def sim_listdir(path='.'):
    out = real.listdir(path)
    if _active():
        ap = _fspath(path)
        if _inside(ap):
            W.at('fs.list', _rel(ap), ap)
            out.sort()
            k = W.fsch.pick(len(out)) if out else 0
            out = out[k:] + out[:k]
    return out


class _Scan:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def sim_scandir(path='.'):
    if not _active():
        return real.scandir(path)
    ap = _fspath(path)
    if not _inside(ap):
        return real.scandir(path)
    W.at('fs.list', _rel(ap), ap)
    with real.scandir(path) as it:
        items = sorted(it, key=lambda e: e.name)
    return _Scan(items)


def sim_fsync(fd):
    if _active():
        ap = _fspath(fd)
        if _inside(ap):
            W.at('fs.fsync', _rel(ap), ap)
            return None
    return real.fsync(fd)


def sim_urandom(n):
    return W.urandom(n) if W is not None else real.urandom(n)


def sim_getpid():
    return 4000 + (0 if W.plan.get('samepid') else 97 * W.proc) + W.inc if W is not None and not W.passthru else real.getpid()


def install_fs():
    """Patch the Python-level file API (in the zygote; inert until a World is active)."""
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.remove = _mut1('remove', 'fs.remove')
    os.unlink = _mut1('unlink', 'fs.remove')
    os.mkdir = _mut1('mkdir', 'fs.mkdir')
    os.rmdir = _mut1('rmdir', 'fs.rmdir')
    os.replace = _mut2('replace', 'fs.rename')
    os.rename = _mut2('rename', 'fs.rename')
    os.link = _mut2('link', 'fs.link')
    os.symlink = _mut2('symlink', 'fs.link')
    os.stat = sim_stat
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.fsync = sim_fsync
    os.fdatasync = sim_fsync
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    os.getpid = sim_getpid
    import tempfile
    seq = tempfile._RandomNameSequence

    def nxt(self):
        r = W.ent if W is not None else random
        return 'sim' + ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(8))
    seq.__next__ = nxt
    import shutil
    # shutil.rmtree decides at import time whether to use directory descriptors; keep its view.
    for s, names in ((os.supports_dir_fd, ('open', 'stat', 'unlink', 'rmdir')), (os.supports_fd, ('scandir', 'listdir', 'stat')),
                     (os.supports_follow_symlinks, ('stat',))):
        for n in names:
            s.add(getattr(os, n))
    return shutil


_real_time = time.time
_real_time_ns = time.time_ns


def install_clock():
    time.time = lambda: W.now() if W is not None and not W.passthru else _real_time()
    time.time_ns = lambda: int(W.now() * 1e9) if W is not None and not W.passthru else _real_time_ns()
