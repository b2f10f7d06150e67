"""C14: probability integral transforms of zero observations are uniform below the probability of zero."""
import numpy as np
from scipy import stats

from sim import ops as O
from sim import proc
from . import c02, common as C

ID = 'C14'
TITLE = 'Randomised PIT values are uniform, independent and reproducible'
LEVEL = 'exploration'
RULE = ('a case is a probability integral transform evaluated many times on data with a chosen share of zero observations and missing values, for every '
        'forecast distribution, serial or in a pool under a seeded schedule with forked or spawned workers, repeated under another schedule and other '
        'entropy and once without randomisation; the values of zero observations are tested for range, uniformity and independence with error rate below '
        '1e-10 per test; non-trivial when zero observations with a positive probability of zero occur; distinct by event-log and value digest')
RUNS = {'quick': 1400, 'thorough': 15000}
COMPONENTS = {'real': ['PyAnEn (all of it)', 'numpy and scipy'],
              'stub': ['process pools (each simulated worker has its own generator state: inherited when forked, fresh when spawned)', 'entropy']}
ASSUMPTIONS = ['statistical tests have a chance of false alarm below 1e-10 each']


def gen(r, i, tier):
    shape = r.choice([[4], [8], [1], [12], [3, 4], [4, 3], [2, 5], [2, 3, 4], [2, 1, 3], [6, 2]])
    if r.random() < 0.03:
        shape = r.choice([[600], [30, 40], [130, 2], [2, 130]])
    kind = r.choice(['hurdle', 'hurdle', 'gauss', 'gamma'])
    d = {'kind': kind, 'shape': shape, 'seed': r.randrange(1 << 30), 'zeros': r.choice([0.2, 0.5, 0.9, 1.0, None])}
    env = {'pyanen_tqdm_workers': r.choice([1, 2, 2, 3, 4]), 'pyanen_tqdm_chunksize': r.choice([1, 1, 2]), 'pyanen_tqdm_map_axis': -r.randint(1, len(shape))}
    if r.random() < 0.3:
        d['nan'] = r.choice([0.1, 0.4])
        d['nan_f'] = True
        if r.random() < 0.7:
            env['pyanen_skip_nan'] = 'True'
    if r.random() < 0.25:
        d['layout'] = r.choice(['F', 'view'])
    if r.random() < 0.2:
        d['const'] = True
    if r.random() < 0.15:
        d['negz'] = True                               # some zeros are negative zeros
    if r.random() < 0.15:
        d['tiny'] = r.choice([1e-12, 1e-9, 1e-6, -1e-9])
    kw = {}
    if kind != 'hurdle' and r.random() < 0.2:
        kw['truncated'] = True
    if r.random() < 0.3:
        kw['avg_axis'] = C.axes(r, shape)
    ops = [{'op': 'seed', 'n': r.randrange(1 << 31)}, {'op': 'new', 'v': 'v', 'data': 'd', 'kw': kw},
           {'op': 'new', 'v': 'w', 'data': 'd', 'kw': dict(kw, pit_randomize_zero_ranks=False)}]
    for _ in range(10 if np.prod(shape) > 100 else r.choice([16, 30, 45])):
        ops.append({'op': 'call', 'v': 'v', 'm': r.choice(['pit', 'pit', 'rank_hist']), 'kw': {}})
        if r.random() < 0.06:
            ops.append({'op': 'call', 'v': 'v', 'm': 'cdf', 'kw': {'below': r.choice([0.0, 2.0])}})
        if r.random() < 0.08:
            ops.append({'op': 'call', 'v': 'w', 'm': r.choice(['pit', 'rank_hist']), 'kw': {}})
        if r.random() < 0.05:
            ops.append({'op': 'env', 'key': 'pyanen_tqdm_workers', 'val': r.choice([1, 2, 4])})
    return {'seed': r.randrange(1 << 30), 'data': {'d': d}, 'env': env, 'ops': ops, 'sched': C.sched(r), 'sched2': C.sched(r), 'fsched': [],
            'start_method': r.choice(['fork', 'fork', 'spawn'])}


def body(plan, ops):
    def go(w):
        ctx = O.Ctx(plan, w)
        for i, op in enumerate(ops):
            w.send(('r', i, O.perform(ctx, op, w), None, []))
    return go


def run(plan):
    res = C.Res()
    ops = plan['ops']
    outs = []
    for inc, sch in ((0, 'sched'), (1, 'sched2')):
        with C.Scratch() as root:
            out = proc.run(root, dict(plan, sched=plan.get(sch, [])), body(plan, ops), inc=inc, env=plan['env'])
        res.absorb(out)
        outs.append(out)
    # the bound: the cumulative probability of the observation, evaluated with one worker and without randomisation
    new = [o for o in ops if o['op'] == 'new']
    if not new:
        return res
    seq = [dict(new[0], v='b', kw=dict(new[0]['kw'], pit_randomize_zero_ranks=False)), {'op': 'call', 'v': 'b', 'm': 'pit', 'kw': {}}]
    with C.Scratch() as root:
        ref = proc.run(root, plan, body(plan, seq), inc=2, env=dict(plan['env'], pyanen_tqdm_workers=1))
    res.absorb(ref)
    p = C.outs(ref)[-1]
    if p[0] != 'ok':
        res.bad('failed', 'the un-randomised transform raised %s: %s' % p[1:])
        return res
    p = np.asarray(p[1], float)
    data = O.build_data(plan['data']['d'])
    o = data['o']
    if p.shape != o.shape:
        res.bad('shape', 'the transform has shape %s for observations of shape %s' % (p.shape, o.shape))
        return res
    zero = (o == 0)
    miss = np.isnan(p)
    # the same, computed independently
    with np.errstate(all='ignore'):
        q = c02.cdf_ref(data, o, new[0]['kw'].get('truncated', False))
    q = np.where(np.isnan(o) | np.any([np.isnan(a) for k, a in data['f'].items() if (k, data['kind']) != ('mu', 'gamma')], axis=0), np.nan, q)
    bad = ~np.isnan(q) & ~(np.abs(p - q) <= 1e-7 + 1e-7 * np.abs(q))
    bad |= np.isnan(q) & ~miss & (np.isnan(o) | (o > 0) | (data['kind'] != 'hurdle'))       # the probability of zero needs no amount
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        res.bad('value', 'the un-randomised transform at %s is %r instead of %r' % (k, float(p[k]), float(q[k])))
        return res
    live = zero & ~miss & (p > 1e-12)
    us = []
    rand = {x['v']: x['kw'].get('pit_randomize_zero_ranks', True) for x in new}
    for (i, y, _, _), (_, y2, _, _) in zip(*[x.results for x in outs]):
        op = ops[i]
        if op['op'] != 'call' or y[0] == 'skip' or op['m'] == 'cdf':
            continue
        if y[0] != 'ok' or y2[0] != 'ok':
            res.bad('failed', 'op %d: the transform raised %s' % (i, (y if y[0] != 'ok' else y2)[1:]))
            break
        dd = O.same(y[1], y2[1], 1e-12, 1e-13)
        if dd:
            res.bad('not-reproducible', 'op %d: with the same generator seed another schedule gives other values: %s' % (i, dd))
            break
        q = np.asarray(y[1], float)
        if q.shape != o.shape:
            res.bad('shape', 'op %d: shape %s for observations of shape %s' % (i, q.shape, o.shape))
            break
        fixed = ~live if rand.get(op['v'], True) else np.ones(o.shape, bool)
        dd = O.same(np.where(fixed, q, 0), np.where(fixed, p, 0))
        if dd:
            res.bad('value', 'op %d: the transform of a cell that is not randomised: %s' % (i, dd))
            break
        if not rand.get(op['v'], True):
            continue
        if not ((q[live] >= 0) & (q[live] <= p[live] * (1 + 1e-12))).all():
            res.bad('bounds', 'op %d: a zero observation has a transform outside [0, probability of zero]' % i)
            break
        us.append(q[live] / p[live])
    for x in outs:
        res.values(C.outs(x))
    if not us or not live.any():
        return res
    res.nontrivial = True
    u = np.stack(us)
    R, K = u.shape
    res.hit('random-numbers', int(u.size))
    ks(res, u.ravel(), 'all zero observations')
    for k in range(K):
        ks(res, u[:, k], 'zero observation %d' % k)
    flat = np.sort(u.ravel())
    near = int((np.diff(flat) < 1e-13).sum())
    if near > 3:
        res.bad('repeated', '%d of %d random numbers are used more than once' % (near, flat.size))
    z = (u - 0.5) * np.sqrt(12)
    for st, n, what in (((z.sum(axis=1) ** 2 / K).sum(), R, 'cells'), ((z.sum(axis=0) ** 2 / R).sum(), K, 'calls')):
        if st > stats.chi2.isf(1e-11, n) * 1.3 + 10 and (K > 1 if what == 'cells' else R > 1):
            res.bad('dependent', 'the values of different %s are not independent (statistic %.1f)' % (what, st))
        e = C.even(z, 1 if what == 'cells' else 0)
        if e:
            res.bad('dependent', 'the values of different %s are not independent: their sums hardly vary (%.2g, at least %.2g expected)' % ((what,) + e))
    e = C.circular(u)
    if e:
        res.bad('dependent', e)
    for lag in (1, 2):
        if R > lag and z[lag:].size > 80 and abs((z[lag:] * z[:-lag]).sum()) > 8 * np.sqrt(z[lag:].size):
            res.bad('dependent', 'the values of call k and call k+%d are not independent' % lag)
    if K > 1 and z[:, 1:].size > 80 and abs((z[:, 1:] * z[:, :-1]).sum()) > 8 * np.sqrt(z[:, 1:].size):
        res.bad('dependent', 'the values of neighbouring cells are not independent')
    return res


def ks(res, u, what):
    n = u.size
    x = np.sort(u)
    d = max((np.arange(1, n + 1) / n - x).max(), (x - np.arange(n) / n).max())
    if 2 * np.exp(-2 * n * d * d) < 1e-11:
        res.bad('not-uniform', '%s: %d values are not uniform (KS distance %.3f)' % (what, n, d))
