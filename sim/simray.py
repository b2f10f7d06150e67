"""A simulated `ray` module: tasks complete in a plan-chosen order, workers die and tasks are
re-executed (at-least-once), objects come back read-only, as with the real object store."""
import os
import pickle
import sys
import types

import cloudpickle

from . import world
from .pool import WorkerState, in_worker
from .world import WorkerDied


def _ser(obj):
    bufs = []
    head = cloudpickle.dumps(obj, protocol=5, buffer_callback=bufs.append)
    return head, [bytes(b.raw()) for b in bufs]


def _de(blob):
    return pickle.loads(blob[0], buffers=blob[1])      # bytes buffers: arrays are read-only


class RayError(Exception):
    pass


class RayTaskError(RayError):
    def __init__(self, cause):
        super().__init__('%s: %s' % (type(cause).__name__, cause))
        self.cause = cause

    def as_instanceof_cause(self):
        c = type(self.cause)
        try:
            cls = type('RayTaskError(%s)' % c.__name__, (RayTaskError, c), {})
            e = cls.__new__(cls)
            Exception.__init__(e, *self.args)
            e.cause = self.cause
            return e
        except TypeError:
            return self


class WorkerCrashedError(RayError):
    pass


class ObjectStoreFullError(RayError):
    pass


class GetTimeoutError(RayError, TimeoutError):
    pass


MAX_RETRIES = 3


class ObjectRef:
    def __init__(self, cluster, n):
        self.cluster, self.n = cluster, n
        self.blob = self.err = None
        self.done = False

    def hex(self):
        return '%056x' % self.n

    def __hash__(self):
        return hash(('ref', self.n))

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return 'ObjectRef(%s)' % self.hex()


class Cluster:
    def __init__(self, w, cpus):
        self.w = w
        self.cpus = max(1, int(cpus or 4))
        self.env = dict(os.environ)
        self.queue, self.flight = [], []
        self.nref = 0
        self.workers = []
        for _ in range(self.cpus):
            self.workers.append(self._worker())

    def _worker(self):
        self.w.forks += 1
        s = WorkerState(self.w, 'spawn', self.w.forks)
        s.env = dict(self.env)
        return s

    def ref(self):
        self.nref += 1
        return ObjectRef(self, self.nref)

    def submit(self, fn, args, kwargs, retries):
        r = self.ref()
        self.queue.append([r, _ser((fn, args, kwargs)), 0, retries])
        return r

    def step(self):
        w = self.w
        busy = {i for i, _ in self.flight}
        idle = [i for i in range(self.cpus) if i not in busy]
        while idle and self.queue:
            self.flight.append((idle.pop(w.choices.pick(len(idle))), self.queue.pop(0)))
        if not self.flight:
            return False
        i, task = self.flight.pop(w.choices.pick(len(self.flight)))
        ref, blob, tries, retries = task
        w.n_tasks += 1
        w.hit('ray-task')
        died, err, out = False, None, None
        with in_worker(w, self.workers[i], i):
            try:
                f = w.point('task', 'ray %d' % ref.n)
                if f is not None and f['kind'] == 'exc':
                    raise MemoryError('simulated allocation failure in a worker')
                if f is not None and f['kind'] == 'die':
                    raise WorkerDied()
                if f is not None and f['kind'] not in ('exc', 'die', 'die_after'):
                    w.apply(f)
                fn, a, k = _de(blob)
                a = [_val(x) for x in a]
                k = {n: _val(x) for n, x in k.items()}
                out = _ser(fn(*a, **k))
                if f is not None and f['kind'] == 'die_after':
                    raise WorkerDied()
            except WorkerDied:
                died = True
            except Exception as e:
                err = e
            finally:
                w.dead = False
        if died:
            w.hit('ray-worker-died')
            self.workers[i] = self._worker()
            if tries < retries:
                w.hit('ray-task-reexecuted')
                self.queue.insert(0, [ref, blob, tries + 1, retries])
            else:
                ref.err = WorkerCrashedError('The worker died unexpectedly while executing this task.')
                ref.done = True
        elif err is not None:
            ref.err, ref.done = RayTaskError(err).as_instanceof_cause(), True
        else:
            ref.blob, ref.done = out, True
        return True


class _Marker:
    """A reference inside serialised task arguments."""

    def __init__(self, n):
        self.n = n


_objects = {}


def _val(x):
    if isinstance(x, _Marker):
        r = _objects[x.n]
        return _de(r.blob)
    return x


def _w():
    if world.W is None:
        raise RuntimeError('simulated ray used outside a simulated process')
    return world.W


def _cluster():
    w = _w()
    if w.ray is None:
        init()
    return w.ray


def init(address=None, *, num_cpus=None, ignore_reinit_error=False, **kw):
    w = _w()
    if w.ray is not None:
        if ignore_reinit_error:
            return types.SimpleNamespace(address_info={})
        raise RuntimeError('Maybe you called ray.init twice by accident? This error can be suppressed by passing in '
                           '\'ignore_reinit_error=True\' or by calling \'ray.shutdown()\' prior to \'ray.init()\'.')
    f = w.point('ray.init', str(num_cpus))
    if f is not None:
        if f['kind'] == 'fail':
            raise ConnectionError('simulated: could not start the cluster')
        w.apply(f)
    w.ray = Cluster(w, num_cpus)
    w.hit('ray-init')
    return types.SimpleNamespace(address_info={})


def is_initialized():
    return _w().ray is not None


def shutdown(*a, **k):
    w = _w()
    if w.ray is not None:
        w.log.append('ray.shutdown')
    w.ray = None


def put(obj, **kw):
    c = _cluster()
    f = c.w.point('ray.put')
    if f is not None:
        if f['kind'] == 'fail':
            raise ObjectStoreFullError('simulated: object store full')
        c.w.apply(f)
    r = c.ref()
    r.blob, r.done = _ser(obj), True
    return r


def _check(r):
    if not isinstance(r, ObjectRef):
        raise ValueError("Invalid type of object refs, %s, is given." % type(r))
    if r.cluster is not _w().ray:
        raise RuntimeError('object reference of a cluster that was shut down')


def _drive(ref):
    while not ref.done:
        ref.cluster.w.at('ray.wait')
        if not ref.cluster.step():
            raise RuntimeError('simulated ray: task can never complete')


def get(refs, *, timeout=None):
    if isinstance(refs, (list, tuple)):
        return [get(r, timeout=timeout) for r in refs]
    _check(refs)
    _w().at('ray.wait')
    if not refs.done and _w().slow(timeout):
        raise GetTimeoutError('Get timed out: some object(s) not ready.')
    _drive(refs)
    if refs.err is not None:
        raise refs.err
    return _de(refs.blob)


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
    if isinstance(refs, ObjectRef):
        raise TypeError('wait() expected a list of ray.ObjectRef')
    refs = list(refs)
    if not refs:
        return [], []
    if len(set(refs)) != len(refs):
        raise ValueError('Wait requires a list of unique object refs.')
    for r in refs:
        _check(r)
    if num_returns > len(refs):
        raise ValueError('num_returns cannot be greater than the number of ray_waitables')
    w = _w()
    while sum(r.done for r in refs) < num_returns:
        w.at('ray.wait')
        if w.slow(timeout):
            ready = [r for r in refs if r.done]
            return ready, [r for r in refs if not r.done]
        if not w.ray.step():
            raise RuntimeError('simulated ray: task can never complete')
    for _ in range(w.choices.pick(4)):
        w.ray.step()                    # others may finish before the driver looks
    ready = [r for r in refs if r.done]
    k = w.choices.pick(2)
    if k and len(ready) > 1:            # which of several ready objects is reported first is not specified
        j = w.choices.pick(len(ready))
        ready = ready[j:] + ready[:j]
    ready = ready[:num_returns]
    s = set(ready)
    return ready, [r for r in refs if r not in s]


class RemoteFunction:
    def __init__(self, fn, opts=None):
        self._fn, self._opts = fn, dict(opts or {})

    def options(self, **o):
        return RemoteFunction(self._fn, {**self._opts, **o})

    def remote(self, *args, **kwargs):
        c = _cluster()
        c.w.point('ray.submit')

        def mark(x):
            if isinstance(x, ObjectRef):
                _check(x)
                _drive(x)
                if x.err is not None:
                    raise x.err
                _objects[(id(c), x.n)] = x
                return _Marker((id(c), x.n))
            return x
        r = c.submit(self._fn, [mark(a) for a in args], {k: mark(v) for k, v in kwargs.items()},
                     self._opts.get('max_retries', MAX_RETRIES))
        if self._opts.get('num_returns', 1) != 1:
            raise NotImplementedError('simulated ray: num_returns')
        return r

    def __call__(self, *a, **k):
        raise TypeError('Remote functions cannot be called directly.')


def remote(*args, **kwargs):
    if len(args) == 1 and not kwargs and callable(args[0]):
        if isinstance(args[0], type):
            raise NotImplementedError('simulated ray: actors')
        return RemoteFunction(args[0])
    return lambda fn: RemoteFunction(fn, kwargs)


def cancel(*a, **k):
    pass


def cluster_resources():
    return {'CPU': float(_cluster().cpus)}


def install():
    m = types.ModuleType('ray')
    for n in ('init', 'is_initialized', 'shutdown', 'put', 'get', 'wait', 'remote', 'cancel', 'ObjectRef', 'cluster_resources'):
        setattr(m, n, globals()[n])
    m.available_resources = cluster_resources
    ex = types.ModuleType('ray.exceptions')
    for n in ('RayError', 'RayTaskError', 'WorkerCrashedError', 'ObjectStoreFullError', 'GetTimeoutError'):
        setattr(ex, n, globals()[n])
    m.exceptions = ex
    m.__path__ = []
    m.__version__ = 'sim'
    sys.modules['ray'] = m
    sys.modules['ray.exceptions'] = ex
