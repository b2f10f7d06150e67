"""JSON operations -> calls on the real PyAnEn API, and comparison of their outcomes."""
import concurrent.futures
import copy
import os
import pickle
import shutil
import sys

import cloudpickle
import numpy as np

from . import boot, world

CLS = {'det': 'VerifyDeterm', 'ens': 'VerifyEnsemble', 'gauss': 'VerifyProbGaussian',
       'gamma': 'VerifyProbGamma', 'hurdle': 'VerifyProbGammaHurdle'}


class Quantile:
    """A picklable collapse function; all instances carry the same name."""
    __name__ = 'quantile'

    def __init__(self, q):
        self.q = q

    def __call__(self, a, axis=None):
        return np.quantile(a, self.q, axis=axis)


FUNCS = {'mean': np.mean, 'median': np.median, 'max': np.max, 'min': np.min, 'q20': Quantile(0.2), 'q80': Quantile(0.8),
         'l1': lambda a, axis=None: np.max(a, axis=axis) - np.min(a, axis=axis), 'l2': lambda a, axis=None: np.mean(a, axis=axis) * 2}



# -- data -------------------------------------------------------------------
def build_data(spec):
    """A forecast / observation pair, a pure function of the (JSON) spec."""
    r = np.random.RandomState(spec['seed'] % (2 ** 32))
    shape = tuple(spec['shape'])
    kind = spec['kind']
    o = r.gamma(2.0, 2.0, shape) + 0.05
    if spec.get('zeros'):
        o[r.uniform(size=shape) < spec['zeros']] = 0.0
    if spec.get('tiny'):
        o[r.uniform(size=shape) < 0.4] = spec['tiny']
    if kind == 'det':
        f = o + r.normal(0, 1, shape)
    elif kind == 'ens':
        m = spec.get('members', 5)
        f = np.abs(r.normal(3, 2, (m,) + shape)) + 0.3 * o
        if spec.get('ties'):
            # integer-valued: many ties between observation and members
            k = spec['ties']
            f = r.randint(0, k, (m,) + shape).astype(float)
            o = r.randint(0, k, shape).astype(float)
            if spec.get('alltied'):
                f[r.randint(0, m)] = o
        if spec.get('near'):
            # some members nearly equal the observation
            k = r.randint(0, 3, f.shape)
            f = np.where(k == 0, o + spec['near'], np.where(k == 1, o - spec['near'], f))
        ax = spec.get('axis', -1)
        if ax != 0:
            f = np.ascontiguousarray(np.moveaxis(f, 0, ax))
    elif kind == 'gauss':
        f = {'mu': 0.5 * o + r.uniform(0.5, 3, shape), 'sigma': r.uniform(0.3, 2, shape)}
    elif kind == 'gamma':
        mu = 0.5 * o + r.uniform(1, 3, shape)
        f = {'unshifted_mu': mu, 'sigma': r.uniform(0.4, 2, shape), 'shift': -r.uniform(0.05, 0.5, shape)}
        f['mu'] = f['unshifted_mu'] + f['shift']
    elif kind == 'hurdle':
        f = {'pop': r.uniform(0.05, 0.95, shape), 'mu': 0.5 * o + r.uniform(1, 3, shape), 'sigma': r.uniform(0.4, 2, shape)}
    else:
        raise ValueError(kind)
    if spec.get('perfect'):
        # the forecast is the observation (up to a linear transform where that is harmless)
        if kind == 'det':
            f = 3 * o + 1
        elif kind == 'ens':
            f = np.repeat(np.expand_dims(o, ax), m, axis=ax)
        else:
            f = dict(f, mu=o.copy(), sigma=np.full(shape, 1e-3))
    if spec.get('low') and kind == 'gauss':
        f['mu'] = f['mu'] - spec['low']
    if spec.get('low') and kind == 'gamma':
        f['shift'] = f['shift'] - spec['low']
        f['mu'] = f['unshifted_mu'] + f['shift']
    if spec.get('scale') and isinstance(f, dict):
        f = {k: v if k == 'pop' else v * spec['scale'] for k, v in f.items()}
        o = o * spec['scale']
    if spec.get('const') and isinstance(f, dict):
        for k in f:
            f[k] = np.full(shape, f[k].ravel()[0])
    if spec.get('neg'):
        o = o - spec['neg']
    if spec.get('negz'):
        o[(o == 0) & (np.random.RandomState(spec['seed'] % 999).uniform(size=shape) < 0.5)] = -0.0
    nan = spec.get('nan')
    if nan:
        hit = r.uniform(size=shape) < nan
        if spec.get('nan_o', True):
            o[hit] = np.nan
        if spec.get('nan_f'):
            for a in (f.values() if isinstance(f, dict) else [f]):
                a[r.uniform(size=a.shape) < nan / 2] = np.nan
    lay = spec.get('layout')
    if lay == 'F':
        o = np.asfortranarray(o)
        f = {k: np.asfortranarray(v) for k, v in f.items()} if isinstance(f, dict) else np.asfortranarray(f)
    elif lay == 'view':
        o = _view(o)
        f = {k: _view(v) for k, v in f.items()} if isinstance(f, dict) else _view(f)
    elif lay == 'f4':
        o = o.astype(np.float32)
        f = {k: v.astype(np.float32) for k, v in f.items()} if isinstance(f, dict) else f.astype(np.float32)
    elif lay:
        conv = {'be': lambda a: a.astype('>f8'), 'ro': lambda a: a.copy(), 'int': lambda a: np.round(a).astype(int)}[lay]
        if lay != 'int' or not nan and kind in ('det', 'ens'):
            o = conv(o)
            f = {k: conv(v) for k, v in f.items()} if isinstance(f, dict) else conv(f)
            if lay == 'int':
                o, f = 2 * o, 2 * f + 1             # never equal: ranks stay unique
        if lay == 'ro':
            for a in [o] + (list(f.values()) if isinstance(f, dict) else [f]):
                a.flags.writeable = False
    return {'f': f, 'o': o, 'kind': kind, 'axis': spec.get('axis', -1)}


def _view(a):
    """The same values as a strided, non-contiguous view of a larger buffer."""
    big = np.full(tuple(2 * n for n in a.shape), -777.0)
    v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def decode(x, ctx):
    if isinstance(x, dict):
        if '$t' in x:
            return tuple(decode(i, ctx) for i in x['$t'])
        if '$a' in x:
            return np.array(x['$a'], dtype=x.get('dtype', float))
        if '$u' in x:                                     # one number per cell
            return np.round(np.random.RandomState(x['$u']).uniform(0.5, 6, x['shape']), 2)
        if '$d' in x:                                     # an array derived from a data set
            d = ctx.data[x['$d']]
            a = d['o'] if x.get('field', 'o') == 'o' else d['f'][x['field']] if isinstance(d['f'], dict) else d['f']
            return a * x.get('mul', 1.0) + x.get('add', 0.0)
        if '$c' in x:                                     # the value of one observation, shifted
            o = ctx.data[x['$c']]['o'].ravel()
            return float(o[x['i'] % o.size]) + x.get('add', 0.0)
        if '$f' in x:
            return FUNCS[x['$f']]
        if '$np' in x:
            return np.float64(x['$np'])
        return {k: decode(v, ctx) for k, v in x.items()}
    if isinstance(x, list):
        return [decode(i, ctx) for i in x]
    return x


def _remote_call(v, m, kw):
    return getattr(v, m)(**kw)


class Skip(Exception):
    pass


class Ctx:
    """State of one simulated process: data sets and verifiers by name."""

    def __init__(self, plan, w):
        self.plan, self.w = plan, w
        self.data = {k: build_data(s) for k, s in plan.get('data', {}).items()}
        self.vs = {}
        self.integ = {}

    def path(self, p):
        """Plan paths are relative to the scratch root, except those under the home shortcut or cwd."""
        if p is None or p.startswith('~') or p.startswith('./') or p == '.':
            return p
        return os.path.join(self.w.root, p)

    def verifier(self, name):
        if name not in self.vs:
            raise Skip()
        return self.vs[name]

    def make(self, op):
        import PyAnEn
        d = self.data[op['data']]
        kw = {k: decode(v, self) for k, v in op.get('kw', {}).items()}
        if 'working_directory' in kw:
            kw['working_directory'] = self.path(kw['working_directory'])
        if d['kind'] == 'ens' and 'ensemble_axis' not in kw and d['axis'] == 0 and \
                d['f'].shape[:-1] == d['o'].shape:
            kw['ensemble_axis'] = 0                # the guess would be ambiguous
        cls = getattr(PyAnEn, CLS[d['kind']])
        return cls(d['f'], d['o'], **kw)

    def do(self, op):
        """Execute one operation; the value it returns, or an exception."""
        k = op['op']
        if k == 'new':
            self.vs.pop(op['v'], None)
            self.vs[op['v']] = self.make(op)
            return None
        if k == 'call':
            v = self.verifier(op['v'])
            return getattr(v, op['m'])(**{a: decode(b, self) for a, b in op.get('kw', {}).items()})
        if k == 'set':
            v = self.verifier(op['v'])
            args = [decode(a, self) for a in op.get('a', [])]
            if op['m'] == 'enable_saving':
                args[0] = self.path(args[0])
            return getattr(v, op['m'])(*args) is v
        if k == 'env':
            if op['val'] is None:
                os.environ[op['key']] = boot.DEFAULTS[op['key']]
            else:
                os.environ[op['key']] = str(self.path(op['val']) if op.get('path') else op['val'])
            return None
        if k == 'integ':
            from PyAnEn.utils_approximation import Integration
            kw = {a: decode(b, self) for a, b in op.get('kw', {}).items()}
            if 'memmap_dir' in kw:
                kw['memmap_dir'] = self.path(kw['memmap_dir'])
            v = self.verifier(op['v'])
            key = (op.get('obj'), op['v'])
            if not op.get('obj'):
                return getattr(Integration(verifier=v, **kw), op['m'])()
            if key not in self.integ or self.integ[key].verifier is not v:
                self.integ[key] = Integration(verifier=v, **kw)          # kept and used again by later operations
            return getattr(self.integ[key], op['m'])()
        if k == 'ship':                                   # hand the verifier over: its pickle goes into a mail box
            v = self.verifier(op['v'])
            blob = (cloudpickle if op.get('cloud') else pickle).dumps(v)
            with world.off():
                with open(os.path.join(self.w.root, 'box', op['box']), 'wb') as f:
                    f.write(blob)
            return None
        if k == 'recv':
            self.vs.pop(op['v'], None)
            with world.off():
                p = os.path.join(self.w.root, 'box', op['box'])
                blob = open(p, 'rb').read() if os.path.exists(p) else None
            if blob is None:
                raise Skip()
            self.vs[op['v']] = pickle.loads(blob)
            return None
        if k == 'copy':
            self.vs[op['v']] = copy.deepcopy(self.verifier(op['from'])) if op.get('deep') else copy.copy(self.verifier(op['from']))
            return None
        if k == 'repr':
            return repr(self.verifier(op['v']))
        if k == 'wipe':                                   # the working directory of a verifier goes away
            v = self.verifier(op['v'])
            with world.off():
                shutil.rmtree(v.working_directory, ignore_errors=True)
            return None
        if k == 'pcall':                                  # the caller's own process pool
            v = self.verifier(op['v'])
            kw = {a: decode(b, self) for a, b in op.get('kw', {}).items()}
            with concurrent.futures.ProcessPoolExecutor(max_workers=op.get('n', 1)) as ex:
                return ex.submit(_remote_call, v, op['m'], kw).result()
        if k == 'seed':
            np.random.seed(op['n'])
            return None
        if k == 'util':
            return self.util(op)
        if k == 'ray_init':
            import ray
            with world.off():
                ray.init(num_cpus=op.get('cpus', 2))
            self.w.ray_user = True
            return None
        if k == 'write_matrix':
            from PyAnEn.Grid import write_matrix
            return write_matrix(self.path(op['file']), matrix(op['mat']), **op.get('kw', {}))
        raise ValueError(k)

    def util(self, op):
        from PyAnEn import utils_dist, utils_special_boot, utils_ss, utils_verify
        mod = {'boot': utils_special_boot, 'dist': utils_dist, 'ss': utils_ss, 'verify': utils_verify}[op['mod']]
        fn = getattr(mod, op['fn'])
        args = [decode(a, self) if not (isinstance(a, dict) and a.get('$raw')) else self.raw(a['$raw']) for a in op.get('a', [])]
        kw = {n: decode(a, self) if not (isinstance(a, dict) and a.get('$raw')) else self.raw(a['$raw'])
              for n, a in op.get('kw', {}).items()}
        return fn(*args, **kw)

    def raw(self, ref):
        """The data set's own array object (not a copy)."""
        name, field = ref
        d = self.data[name]
        if field == 'o':
            return d['o']
        return d['f'] if field == 'f' else d['f'][field]


def matrix(spec):
    r = np.random.RandomState(spec['seed'] % (2 ** 32))
    n, m = spec['shape']
    a = r.normal(0, 10.0 ** spec.get('mag', 0), (n, m))
    if spec.get('int'):
        a = r.randint(-10 ** 6, 10 ** 6, (n, m))
        return a
    if spec.get('f4'):
        a = a.astype(np.float32)
    if spec.get('nan'):
        a[r.uniform(size=a.shape) < spec['nan']] = np.nan
    if spec.get('inf') and a.size:
        a.flat[0] = np.inf
        a.flat[-1] = -np.inf
    return a


# -- outcomes ---------------------------------------------------------------
def perform(ctx, op, w):
    """('ok', value) | ('exc', type, text) | ('skip',)   -- seams active only inside."""
    w.op_fired = []
    w.disk_full = False
    w.passthru -= 1
    if w.plan.get('mem'):
        sys.settrace(w.tracer(boot.REPO + '/PyAnEn/'))
    try:
        out = ('ok', ctx.do(op))
    except Skip:
        out = ('skip',)
    except world.StepCap:
        raise
    except KeyboardInterrupt:
        out = ('exc', 'KeyboardInterrupt', '')
    except Exception as e:
        out = ('exc', type(e).__name__, str(e)[:300])
    finally:
        sys.settrace(None)
        w.passthru += 1
        w.disk_full = False
    return out


def settings():
    """The meaning of the process-wide settings (not their spelling)."""
    out = {}
    for k in boot.DEFAULTS:
        v = os.environ.get(k)
        out[k] = norm_setting(v)
    for k in os.environ:
        if k.startswith('pyanen_') and k not in out:
            out[k] = os.environ[k]
    return out


def process_state():
    """Everything process-wide that a call could change and must not: name -> value."""
    import gc
    import locale
    import logging
    import signal
    import warnings
    out = dict(settings())
    for k, v in os.environ.items():
        if k not in out and k not in boot.DEFAULTS:
            out['environ ' + k] = v
    for k, v in np.geterr().items():
        out['numpy error ' + k] = v
    out['numpy error call'] = repr(np.geterrcall())
    for k, v in np.get_printoptions().items():
        out['numpy print ' + k] = repr(v)
    out['numpy buffer'] = np.getbufsize()
    out['recursion limit'] = sys.getrecursionlimit()
    out['switch interval'] = sys.getswitchinterval()
    for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD):
        out['signal %d' % n] = repr(signal.getsignal(n))
    out['timer'] = signal.getitimer(signal.ITIMER_REAL)[0] > 0
    out['locale'] = locale.setlocale(locale.LC_ALL)
    out['collector'] = (gc.isenabled(), gc.get_threshold())
    out['stdout'], out['stderr'] = id(sys.stdout), id(sys.stderr)
    out['excepthook'] = repr(sys.excepthook)
    out['argv'] = list(sys.argv)
    out['path'] = list(sys.path)
    out['logging'] = (logging.getLogger().level, logging.root.manager.disable, len(logging.getLogger().handlers))
    out['warnings'] = [len(sys.modules), [repr(f) for f in warnings.filters]]
    m = os.umask(0o77)
    os.umask(m)
    out['umask'] = m
    return out


def state_change(a, b):
    """What differs between two process states: {} or {name: (before, after)}."""
    d = {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}
    if 'warnings' in d and a['warnings'][0] != b['warnings'][0]:
        del d['warnings']                       # a module imported meanwhile may have added its own
    return d


def norm_setting(v):
    if v is None:
        return None
    s = v.strip().lower()
    if s in ('true', 'yes', 't', 'y', 'on', '1'):
        return 1.0
    if s in ('false', 'no', 'f', 'n', 'off', '0'):
        return 0.0
    try:
        return float(s)
    except ValueError:
        return v


# -- comparison --------------------------------------------------------------
def is_num(x):
    return isinstance(x, (int, float, np.number, np.bool_)) and not isinstance(x, bool)


def same(a, b, rtol=1e-9, atol=1e-11):
    """None when equal up to rounding, else a short description of the first difference."""
    if hasattr(a, 'to_numpy') and hasattr(a, 'index'):
        if not (hasattr(b, 'to_numpy') and hasattr(b, 'index')):
            return 'type %s vs %s' % (type(a).__name__, type(b).__name__)
        return same(list(a.index), list(b.index)) or same(a.to_numpy(), b.to_numpy(), rtol, atol)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a0, b0 = a, b
        try:
            a, b = np.asarray(a), np.asarray(b)
        except Exception:
            return 'not comparable'
        if a.shape != b.shape:
            return 'shape %s vs %s' % (a.shape, b.shape)
        if a.dtype == object or b.dtype == object:
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                d = same(x, y, rtol, atol)
                if d:
                    return 'item %d: %s' % (i, d)
            return None
        a, b = a.astype(float), b.astype(float)
        bad = ~(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        if bad.any():
            i = tuple(int(j) for j in np.argwhere(bad)[0])
            return 'at %s: %r vs %r (%d of %d cells differ)' % (i, float(a[i]), float(b[i]), int(bad.sum()), bad.size)
        return None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)) or len(a) != len(b):
            return 'structure differs'
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, rtol, atol)
            if d:
                return 'item %d: %s' % (i, d)
        return None
    if a is None or b is None:
        return None if a is b else '%r vs %r' % (a, b)
    if isinstance(a, (int, float, bool, np.generic)) and isinstance(b, (int, float, bool, np.generic)):
        return None if np.isclose(float(a), float(b), rtol=rtol, atol=atol, equal_nan=True) else '%r vs %r' % (a, b)
    return None if a == b else '%r vs %r' % (a, b)


def same_outcome(a, b, rtol=1e-9, atol=1e-11):
    """Outcomes agree: both raise, or both return the same value."""
    if a[0] == 'skip' or b[0] == 'skip':
        return None if a[0] == b[0] else 'one skipped'
    if a[0] != b[0]:
        e = a if a[0] == 'exc' else b
        return '%s raised %s: %s while the other returned a value' % ('first' if a[0] == 'exc' else 'second', e[1], e[2])
    if a[0] == 'exc':
        return None
    return same(a[1], b[1], rtol, atol)
