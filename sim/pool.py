"""Simulated process / thread pools: who runs what, and who finishes first, is a plan choice.

Worker 'processes' are contexts inside the simulated process: own copy of os.environ and of the
numpy / random generator state, arguments and results passed through pickle.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import itertools
import multiprocessing
import multiprocessing.pool
import os
import pickle
import random
from concurrent.futures import Executor, Future
from functools import partial

import numpy as np

from . import world
from .world import WorkerDied


class WorkerState:
    """The per-process state a worker owns."""

    def __init__(self, w, method, salt):
        self.env = dict(os.environ)
        if method == 'fork':
            self.np_state = np.random.get_state()
            self.py_state = random.getstate()
        else:
            r = random.Random('wk-%s-%s-%s-%s' % (w.plan.get('seed', 0), w.proc, w.inc, salt))
            self.np_state = np.random.RandomState(r.getrandbits(32)).get_state()
            self.py_state = random.Random(r.getrandbits(64)).getstate()


def _set_env(new):
    cur = os.environ
    for k in list(cur.keys()):
        if k not in new:
            del cur[k]
    for k, v in new.items():
        if cur.get(k) != v:
            cur[k] = v


class in_worker:
    """Run a block as the given worker."""

    def __init__(self, w, state, ident, method='process'):
        self.w, self.s, self.ident = w, state, ident

    def __enter__(self):
        self.saved = (dict(os.environ), np.random.get_state(), random.getstate(), self.w.worker)
        _set_env(self.s.env)
        np.random.set_state(self.s.np_state)
        random.setstate(self.s.py_state)
        self.w.worker = self.ident

    def __exit__(self, *a):
        self.s.env = dict(os.environ)
        self.s.np_state = np.random.get_state()
        self.s.py_state = random.getstate()
        env, nps, pys, wk = self.saved
        _set_env(env)
        np.random.set_state(nps)
        random.setstate(pys)
        self.w.worker = wk
        return False


class SimFuture(Future):
    _ex = None

    def _drive(self, timeout=None):
        while not self.done():
            self._ex._wait_point()
            if self._ex.w.slow(timeout):
                raise cf.TimeoutError()
            if not self._ex._step():
                raise RuntimeError('simulated pool: future can never complete')

    def result(self, timeout=None):
        self._drive(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._drive(timeout)
        return super().exception(0)


class SimExecutor(Executor):
    isolated = True

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(),
                 max_tasks_per_child=None, **kw):
        w = world.W
        if w is None:
            raise RuntimeError('simulated pool used outside a simulated process')
        if max_workers is not None and max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        self.w = w
        self.n = max_workers or 4
        self.method = w.start_method
        if mp_context is not None and hasattr(mp_context, 'get_start_method'):
            self.method = mp_context.get_start_method()
        if self.method not in ('fork', 'spawn'):
            self.method = 'spawn'
        self.init, self.initargs = initializer, initargs
        self.workers = None
        self.queue, self.flight = [], []      # flight: (worker index, item)
        self.broken = None
        self.closed = False
        w.hit('pool')

    # -- plumbing -------------------------------------------------------------
    def _start(self):
        if self.workers is None:
            self.workers = []
            for i in range(self.n):
                self.w.forks += 1
                s = WorkerState(self.w, self.method, self.w.forks)
                self.workers.append(s)
                if self.init is not None:
                    if self.isolated:
                        with in_worker(self.w, s, i):
                            self.init(*self.initargs)
                    else:
                        self.init(*self.initargs)

    def _wait_point(self):
        self.w.at('pool.wait')

    def submit(self, fn, /, *args, **kwargs):
        if self.broken is not None:
            raise cfp.BrokenProcessPool(self.broken)
        if self.closed:
            raise RuntimeError('cannot schedule new futures after shutdown')
        fut = SimFuture()
        fut._ex = self
        self._start()
        if self.isolated:
            try:
                blob = pickle.dumps((fn, args, kwargs))
            except Exception as e:                        # as the real pool: error lands on the future
                fut.set_exception(e)
                return fut
        else:
            blob = (fn, args, kwargs)
        self.queue.append((fut, blob))
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1, buffersize=None):
        if chunksize < 1:
            raise ValueError('chunksize must be >= 1.')
        if not self.isolated or chunksize == 1:
            results = super().map(partial(cfp._process_chunk, fn), _chunks(zip(*iterables), 1), timeout=timeout)
        else:
            results = super().map(partial(cfp._process_chunk, fn), _chunks(zip(*iterables), chunksize), timeout=timeout)
        return _chain(results)

    def _step(self):
        """Finish one in-flight task (chosen by the plan).  False when there is nothing to run."""
        w = self.w
        busy = {i for i, _ in self.flight}
        idle = [i for i in range(self.n) if i not in busy]
        while idle and self.queue:
            item = self.queue.pop(0)
            if not item[0].set_running_or_notify_cancel():
                continue
            i = idle.pop(w.choices.pick(len(idle)))
            self.flight.append((i, item))
        if not self.flight:
            return False
        i, (fut, blob) = self.flight.pop(w.choices.pick(len(self.flight)))
        w.n_tasks += 1
        w.hit('pool-task')
        died = False
        err = out = None
        if self.isolated:
            with in_worker(w, self.workers[i], i):
                try:
                    f = w.point('task', 'pool %d' % i)
                    if f is not None and f['kind'] == 'exc':
                        raise MemoryError('simulated allocation failure in a worker')
                    if f is not None and f['kind'] == 'die':
                        raise WorkerDied()
                    if f is not None and f['kind'] not in ('exc', 'die', 'die_after'):
                        w.apply(f)
                    fn, a, k = pickle.loads(blob)
                    out = pickle.loads(pickle.dumps(fn(*a, **k)))
                    if f is not None and f['kind'] == 'die_after':
                        raise WorkerDied()
                except WorkerDied:
                    died = True
                except Exception as e:
                    err = e
                finally:
                    w.dead = False
        else:
            fn, a, k = blob
            try:
                out = fn(*a, **k)
            except Exception as e:
                err = e
        if died:
            self.broken = 'A process in the process pool was terminated abruptly while the future was running or pending.'
            w.hit('pool-broken')
            for ft in [fut] + [it[0] for _, it in self.flight] + [it[0] for it in self.queue]:
                if not ft.done():
                    ft.set_exception(cfp.BrokenProcessPool(self.broken))
            self.flight, self.queue = [], []
        elif err is not None:
            fut.set_exception(err)
        else:
            fut.set_result(out)
        return True

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for fut, _ in self.queue:
                fut.cancel()
            self.queue = []
        if not self.closed or wait:
            self.closed = True
            while self._step():
                pass


class SimThreadExecutor(SimExecutor):
    isolated = False

    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=(), **kw):
        super().__init__(max_workers, None, initializer, initargs)

    def map(self, fn, *iterables, timeout=None, chunksize=1, buffersize=None):
        return Executor.map(self, fn, *iterables, timeout=timeout)


def _chunks(it, n):
    while True:
        c = tuple(itertools.islice(it, n))
        if not c:
            return
        yield c


def _chain(results):
    for element in results:
        element.reverse()
        while element:
            yield element.pop()


_real_as_completed = cf.as_completed
_real_wait = cf.wait


def as_completed(fs, timeout=None):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        yield from _real_as_completed(fs, timeout)
        return
    pending = list(dict.fromkeys(fs))
    while pending:
        done = [f for f in pending if f.done()]
        if not done:
            f = pending[0]
            f._ex._wait_point()
            if f._ex.w.slow(timeout):
                raise cf.TimeoutError('%d (of %d) futures unfinished' % (len(pending), len(fs)))
            f._ex._step()
            continue
        f = done[world.W.choices.pick(len(done))]
        pending.remove(f)
        yield f


def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
        return _real_wait(fs, timeout, return_when)
    while True:
        done = {f for f in fs if f.done()}
        if len(done) == len(fs) or (done and return_when == cf.FIRST_COMPLETED) or \
                (return_when == cf.FIRST_EXCEPTION and any(f.exception() for f in done)):
            return type(_real_wait([]))(done, set(fs) - done)
        f = [f for f in fs if not f.done()][0]
        f._ex._wait_point()
        if f._ex.w.slow(timeout):
            return type(_real_wait([]))(done, set(fs) - done)
        f._ex._step()


class SimAsync:
    def __init__(self, futs, single=False, cb=None, ecb=None):
        self.f, self.single = futs, single
        left = [len(futs)]

        def done(_):
            left[0] -= 1
            if left[0]:
                return
            e = [x.exception() for x in futs if x.exception() is not None]
            if e and ecb:
                ecb(e[0])
            elif not e and cb:
                cb(futs[0].result() if single else [x.result() for x in futs])
        if cb or ecb:
            for x in futs:
                x.add_done_callback(done)

    def get(self, timeout=None):
        try:
            r = [x.result(timeout) for x in self.f]
        except cf.TimeoutError:
            if all(x.done() for x in self.f):
                raise
            raise multiprocessing.TimeoutError()
        return r[0] if self.single else r

    def wait(self, timeout=None):
        for x in self.f:
            try:
                x.exception(timeout)
            except cf.TimeoutError:
                return

    def ready(self):
        return all(x.done() for x in self.f)

    def successful(self):
        return all(x.exception() is None for x in self.f)


class SimPool:
    """multiprocessing.Pool on the simulated executor."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.ex = SimExecutor(processes or 4, context, initializer, initargs)

    def map(self, f, it, chunksize=None):
        return list(self.ex.map(f, it, chunksize=chunksize or 1))

    def starmap(self, f, it, chunksize=None):
        return [x.result() for x in [self.ex.submit(f, *a) for a in it]]

    def imap(self, f, it, chunksize=1):
        return self.ex.map(f, it, chunksize=chunksize or 1)

    def imap_unordered(self, f, it, chunksize=1):
        futs = [self.ex.submit(cfp._process_chunk, f, c) for c in _chunks(((x,) for x in it), chunksize or 1)]
        for x in as_completed(futs):
            yield from x.result()

    def apply(self, f, args=(), kwds={}):
        return self.ex.submit(f, *args, **kwds).result()

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        return SimAsync([self.ex.submit(f, *args, **kwds)], True, callback, error_callback)

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return SimAsync([self.ex.submit(f, x) for x in it], False, callback, error_callback)

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return SimAsync([self.ex.submit(f, *x) for x in it], False, callback, error_callback)

    def close(self):
        self.ex.closed = True

    def join(self):
        while self.ex._step():
            pass

    def terminate(self):
        self.ex.queue, self.ex.flight = [], []
        self.ex.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def install():
    cf.ProcessPoolExecutor = SimExecutor
    cfp.ProcessPoolExecutor = SimExecutor
    cf.ThreadPoolExecutor = SimThreadExecutor
    import concurrent.futures.thread as cft
    cft.ThreadPoolExecutor = SimThreadExecutor
    cf.as_completed = as_completed
    cf.wait = wait
    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    from multiprocessing import context

    def mk(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild, self)
    context.BaseContext.Pool = mk
