"""Shared generators and run helpers."""
import hashlib
import json
import random
import shutil

import numpy as np
from scipy import stats

from sim import ops as O
from sim import proc
from sim.proc import Scratch


class Res:
    """What one simulated run showed."""

    def __init__(self):
        self.violations = []          # (class, text)
        self.stats = {}
        self.steps = 0
        self.procs = 0
        self.dig = hashlib.sha256()
        self.nontrivial = False
        self.key = None               # distinctness key (event-log based)

    def bad(self, cls, text):
        self.violations.append((cls, text))

    def hit(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def absorb(self, out):
        """Account for one simulated process."""
        self.procs += 1
        i = out.info or {}
        self.steps += i.get('total', 0)
        for k, v in (i.get('stats') or {}).items():
            self.hit(k, v)
        for line in i.get('log') or ():
            self.dig.update(line.encode('utf-8', 'replace'))
        self.dig.update(str(out.how).encode())
        if out.how.startswith('signal'):
            self.bad('killed', 'the simulated process was ended by %s' % out.how)
        elif out.how.startswith('exit'):
            raise proc.HarnessError('simulated process ended with %s' % out.how)
        elif out.how == 'hang':
            self.bad('no-progress', 'a simulated process is stuck: no answer, and either no processor time in %.0f s or more than %.0f s of it' % (proc.HANG_S, proc.HANG_CPU))
        elif out.how == 'stepcap':
            self.bad('no-progress', 'more simulated steps than any run of this workload needs: no progress')

    def values(self, outcomes):
        for o in outcomes:
            self.dig.update(repr(o[0]).encode())
            if o[0] == 'ok':
                self.dig.update(vdig(o[1]))

    def digest(self):
        return self.dig.hexdigest()[:20]


def vdig(v):
    if isinstance(v, np.ndarray):
        return repr(v.shape).encode() + np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v).encode()
    if isinstance(v, (tuple, list)):
        return b''.join(vdig(x) for x in v)
    if hasattr(v, 'to_numpy'):
        return vdig(v.to_numpy())
    return repr(v).encode()


def exec_ops(plan, ops, setup=None, each=None, seeds=True):
    """Body of a simulated process: run ops one after the other, report each outcome."""
    def body(w):
        ctx = O.Ctx(plan, w)
        if setup:
            setup(ctx, w)
        for i, op in enumerate(ops):
            if seeds:
                np.random.seed((plan.get('seed', 0) * 131 + 7 * op.get('sid', i)) % (2 ** 32))
            before = each(ctx, w, i, op, None, None) if each else None
            out = O.perform(ctx, op, w)
            extra = each(ctx, w, i, op, out, before) if each else None
            w.send(('r', i, out, extra, list(w.op_fired)))
    return body


def outs(o):
    return [r[1] for r in o.results]


def fs_events(log):
    return [l for l in log if ' fs.' in l]


# -- statistical tests (chance of a false alarm below 1e-10 each) -------------
def ks_bad(u):
    """The Kolmogorov-Smirnov distance of u from uniform if it is too large, else None."""
    n = u.size
    x = np.sort(np.ravel(u))
    d = max((np.arange(1, n + 1) / n - x).max(), (x - np.arange(n) / n).max())
    return d if 2 * np.exp(-2 * n * d * d) < 1e-11 else None


def even(z, axis):
    """Sums of independent standardised values along an axis that vary too little: None, or the statistic and its bound."""
    m = z.shape[axis]
    k = z.size // m if m else 0
    if m < 2 or k < 12:
        return None
    st = (z.sum(axis=axis) ** 2 / m).sum()
    lo = stats.chi2.ppf(1e-12, k) * 0.6
    return (st, lo) if st < lo else None


def circular(u):
    """Differences and sums modulo one of neighbours of independent uniform numbers are uniform: what is wrong, or None."""
    for ax in range(u.ndim):
        n = u.shape[ax]
        for lag in (1, 2, n // 2):
            if 0 < lag < n:
                a, b = np.take(u, range(lag, n), ax), np.take(u, range(n - lag), ax)
                if a.size >= 20:
                    w = (a - b) % 1.0
                    d = ks_bad(w)
                    if d:
                        return 'values %d apart along axis %d depend on each other (KS distance %.3f of %d differences)' % (lag, ax, d, w.size)
                    for h in (1, 2):                       # Rayleigh's test of the directions
                        z = w.size * abs(np.exp(2j * np.pi * h * w).mean()) ** 2
                        if z > 28:
                            return 'values %d apart along axis %d depend on each other (Rayleigh statistic %.1f of %d differences)' % (lag, ax, z, w.size)
    return None


# -- generators ---------------------------------------------------------------
SHAPES = [(4,), (7,), (1,), (3, 4), (4, 3), (2, 5), (1, 6), (5, 1), (2, 3, 4), (3, 2, 2), (2, 1, 3), (6, 3), (2, 2, 2, 2), (3, 1, 2, 2)]


def pick_shape(r, big=0.0, mind=1, maxd=4, mincells=1):
    while True:
        s = r.choice(SHAPES)
        if r.random() < big:
            s = tuple(r.choice([2, 3, 5, 8, 11, 12]) for _ in range(r.choice([1, 2, 3])))
        if mind <= len(s) <= maxd and np.prod(s) >= mincells:
            return list(s)


def data_spec(r, kind, shape=None, **kw):
    d = {'kind': kind, 'shape': shape or pick_shape(r), 'seed': r.randrange(1 << 30)}
    if kind == 'ens':
        d['members'] = r.choice([2, 3, 4, 5, 8])
        d['axis'] = r.choice([-1, -1, 0])
        if d['axis'] == 0 and d['members'] == d['shape'][-1] and len(set(d['shape'])) == 1:
            pass
    if r.random() < 0.3:
        d['layout'] = r.choice(['F', 'view', 'F', 'ro', 'ro', 'be', 'int'])
    if r.random() < 0.15:
        d['neg'] = r.choice([1.0, 4.0])                # negative observations
    d.update(kw)
    return d


def axes(r, shape):
    """An averaging axis: None, an int or a tuple of axes (not always in order, sometimes counted from the end)."""
    n = len(shape)
    k = r.random()
    if k < 0.35:
        return None
    if k < 0.6:
        return r.randrange(n) - (n if r.random() < 0.2 else 0)
    a = r.sample(range(n), r.randint(1, n))
    if r.random() < 0.8:
        a.sort()
    if r.random() < 0.2:
        a = [i - n if r.random() < 0.6 else i for i in a]
    return {'$t': a}


def thr(r, kind='any'):
    return r.choice([1.0, 2.5, 3, 0.5, 1.25, 4.0, 2, round(r.uniform(0.1, 6), 3), r.choice([3.3000000000000003, 1.1111111111111112, 2.3333333333333335])])


def one_sided(r, t):
    return {r.choice(['over', 'below']): t}


BASE = {
    'det': ['error', 'sq_error', 'ab_error', 'rmse', 'f_determ', 'corr', 'iou_determ'],
    'ens': ['error', 'sq_error', 'ab_error', 'rmse', 'f_determ', 'corr', 'iou_determ', 'crps', 'rank_hist', 'spread', 'variance',
            'brier', 'brier_decomp', 'binned_spread_skill', 'reliability', 'roc', 'sharpness', 'iou_prob', 'cdf'],
    'gauss': ['error', 'sq_error', 'ab_error', 'rmse', 'f_determ', 'corr', 'iou_determ', 'crps', 'pit', 'variance', 'rank_hist',
              'brier', 'brier_decomp', 'binned_spread_skill', 'reliability', 'roc', 'sharpness', 'iou_prob', 'cdf'],
}
BASE['gamma'] = BASE['gauss']
BASE['hurdle'] = BASE['gauss']
SAMPLED = ['prob_to_ens', 'spread', 'rank_hist']


def metric_kw(r, m, cells=8, t=None):
    """Arguments for metric m."""
    t = thr(r) if t is None else t
    if m in ('brier', 'brier_decomp', 'roc', 'sharpness', 'cdf', 'iou_determ'):
        return one_sided(r, t)
    if m == 'iou_prob':
        p = r.choice([0.5, 0.3, 0.7, 0.9])
        n2 = {'$t': [None, None]}
        if r.random() < 0.5:
            return {'over': {'$t': [t, p]}, 'below': n2}
        return {'below': {'$t': [t, p]}, 'over': n2}
    if m == 'reliability':
        d = one_sided(r, t)
        d['nbins'] = r.choice([3, 5, 15])
        return d
    if m == 'binned_spread_skill':
        return {'nbins': r.choice([1, 2, 3])}
    return {}


def call(r, v, m, cells=8, t=None):
    return {'op': 'call', 'v': v, 'm': m, 'kw': metric_kw(r, m, cells, t)}


def sched(r, n=24):
    """Random schedule stream; sometimes strictly FIFO, sometimes strictly last-first."""
    k = r.random()
    if k < 0.12:
        return []
    if k < 0.22:
        return [10 ** 6 - 1]                   # a constant: biased
    return [r.randrange(1 << 16) for _ in range(r.choice([5, 11, n]))]


def env_ops(d):
    return [{'op': 'env', 'key': k, 'val': v} for k, v in d.items()]


def place(r, counters, classes, kinds):
    """A fault at a random occurrence of a random class that the fault-free run reached."""
    c = [k for k in classes if counters.get(k)]
    if not c:
        return None
    k = r.choice(c)
    return {'cls': k, 'n': r.randint(1, counters[k]), 'kind': r.choice(kinds), 'frac': r.choice([0.0, 0.0, 0.3, 0.5, 0.9, 1.0])}


def copytree(a, b):
    shutil.copytree(a, b, symlinks=True)


def jhash(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def other(plan, k):
    """Does incarnation k of this plan run in the interpreter with the other hash seed?"""
    return k > 0 and (plan['seed'] >> (k % 8)) & 1 == 1
