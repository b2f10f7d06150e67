"""C08: parallel sampling draws fresh, independent and reproducible members."""
import numpy as np
from scipy import stats

from sim import ops as O
from sim import proc
from . import common as C

ID = 'C08'
TITLE = 'Parallel sampling draws fresh, independent and reproducible members'
LEVEL = 'exploration'
RULE = ('a case is a sequence of sampling calls, parallel and serial, on one or two Gaussian or Gamma verifiers under a seeded schedule of the worker pool '
        '(forked or spawned workers, any worker count, map axis and chunk size), run once more with other scheduling and other entropy; the members are '
        'mapped to uniform numbers through the forecast distribution and tested for repeats, dependence and fit with error rate below 1e-10 per test; '
        'non-trivial when a pool was used; distinct by event-log and value digest')
RUNS = {'quick': 2100, 'thorough': 20000}
COMPONENTS = {'real': ['PyAnEn sampling code', 'numpy and scipy generators'],
              'stub': ['process pools (each simulated worker has its own generator state: inherited when forked, fresh when spawned)', 'entropy']}
ASSUMPTIONS = ['statistical tests have a chance of false alarm below 1e-10 each']


def gen(r, i, tier):
    kind = r.choice(['gauss', 'gamma'])
    shape = r.choice([[4], [6], [3, 4], [2, 5], [5, 2], [2, 3, 4], [8], [1, 6], [4, 1, 3]])
    n = r.choice([20, 40, 60])
    if r.random() < 0.06:
        shape, n = r.choice([([130], 10), ([40, 3], 10), ([3, 70], 8), ([3], 300), ([2, 2], 140), ([600], 4), ([25], 1), ([4, 50], 100), ([2], 1500)])
    const = r.random() < 0.5
    data = {'d0': {'kind': kind, 'shape': shape, 'seed': r.randrange(1 << 30), 'const': const}}
    if r.random() < 0.3:
        data['d0']['low'] = r.choice([1.0, 2.0])          # much of the distribution below zero
    if r.random() < 0.15:
        data['d0']['scale'] = r.choice([1e-3, 50.0, 1e4])
    if r.random() < 0.3:
        data['d1'] = dict(data['d0'], seed=r.randrange(1 << 30))
    env = {'pyanen_tqdm_workers': r.choice([2, 2, 3, 4, 5]), 'pyanen_tqdm_chunksize': r.choice([1, 1, 2, 3]),
           'pyanen_tqdm_map_axis': -r.randint(1, len(shape))}
    trunc = r.random() < 0.4
    clip = r.choice([0.0, 0.0, 0.5, 1.0, 2.5, 1e-3, -0.5]) if r.random() < 0.12 else None
    ops, vs = [], []
    move = r.choice([0, 0, 0, -1, len(shape) - 1])
    for j, d in enumerate(sorted(data)):
        kw = {'n_sample_members': n, 'move_sampled_ens_axis': move}
        if trunc:
            kw['truncated'] = True
        if clip is not None:
            kw['clip_member_to_zero'] = clip
        ops.append({'op': 'new', 'v': 'v%d' % j, 'data': d, 'kw': kw})
        vs.append('v%d' % j)
    for _ in range(r.choice([2, 2, 3, 4])):
        if r.random() < 0.2:
            ops.append({'op': 'env', 'key': 'pyanen_tqdm_workers', 'val': r.choice([1, 2, 4])})
        if r.random() < 0.15:
            # another parallel metric in between
            ops.append({'op': 'call', 'v': r.choice(vs), 'm': 'cdf', 'kw': {'below': 2.0}})
        ops.append({'op': 'call', 'v': r.choice(vs), 'm': 'prob_to_ens', 'kw': {}})
    ops.insert(0, {'op': 'seed', 'n': r.randrange(1 << 31)})
    return {'seed': r.randrange(1 << 30), 'data': data, 'env': env, 'ops': ops, 'sched': C.sched(r), 'sched2': C.sched(r), 'fsched': [],
            'start_method': r.choice(['fork', 'fork', 'spawn'])}


def body(plan, ops):
    def go(w):
        ctx = O.Ctx(plan, w)
        for i, op in enumerate(ops):
            out = O.perform(ctx, op, w)
            w.send(('r', i, out, None, []))
    return go


def uniform(d, kw, x):
    """Members -> probabilities under the forecast distribution."""
    f = d['f']
    if d['kind'] == 'gauss':
        g = stats.norm(loc=f['mu'], scale=f['sigma'])
    else:
        m, s = f['unshifted_mu'], f['sigma']
        g = stats.gamma(a=(m / s) ** 2, scale=s ** 2 / m, loc=f['shift'])
    if kw.get('truncated'):
        return 1 - g.sf(x) / g.sf(0.0)
    return g.cdf(x)


def run(plan):
    res = C.Res()
    ops = plan['ops']
    runs = []
    for inc, sch in ((0, 'sched'), (1, 'sched2')):
        with C.Scratch() as root:
            out = proc.run(root, dict(plan, sched=plan[sch]), body(plan, ops), inc=inc, env=plan['env'])
        res.absorb(out)
        runs.append(out)
    seeded = [dict(o, n=(o['n'] ^ 0x1234567)) if o['op'] == 'seed' else o for o in ops]
    with C.Scratch() as root:
        other = proc.run(root, plan, body(plan, seeded), inc=2, env=plan['env'])
    res.absorb(other)
    a, b = runs
    data = {k: O.build_data(s) for k, s in plan['data'].items()}
    kws = {o['v']: (o['data'], o['kw']) for o in ops if o['op'] == 'new'}
    us, tags = [], []
    for (i, y, _, _), (_, y2, _, _), (_, y3, _, _) in zip(a.results, b.results, other.results):
        op = ops[i]
        if op['op'] != 'call' or op['m'] != 'prob_to_ens':
            continue
        if y[0] == 'skip':
            continue
        if y[0] != 'ok' or y2[0] != 'ok':
            res.bad('failed', 'op %d: sampling raised %s' % (i, (y if y[0] != 'ok' else y2)[1:]))
            continue
        if not np.array_equal(y[1], y2[1]):
            res.bad('not-reproducible', 'op %d: with the same generator seed, another order of the workers gives other members (%d of %d differ)' % (
                i, int((y[1] != y2[1]).sum()) if y[1].shape == y2[1].shape else -1, y[1].size))
        dn, kw = kws[op['v']]
        d = data[dn]
        n = kw['n_sample_members']
        if y[1].ndim == 1 + len(plan['data'][dn]['shape']):
            # members first
            y = ('ok', np.moveaxis(y[1], kw['move_sampled_ens_axis'], 0))
            if y3[0] == 'ok' and y3[1].ndim == y[1].ndim:
                y3 = ('ok', np.moveaxis(y3[1], kw['move_sampled_ens_axis'], 0))
        if y[1].shape != (n,) + tuple(plan['data'][dn]['shape']):
            res.bad('shape', 'op %d: members have shape %s' % (i, y[1].shape))
            continue
        if kw.get('clip_member_to_zero') is not None:
            clipped(res, d, kw, y[1], 'op %d' % i)
            continue
        u = uniform(d, kw, y[1])
        if not ((u >= -1e-9) & (u <= 1 + 1e-9)).all():
            res.bad('distribution', 'op %d: members outside the support of the distribution' % i)
        us.append(u)
        tags.append('op %d' % i)
        same = y[1].size - np.unique(y[1]).size
        if same > 2:
            res.bad('repeated', 'op %d: %d of %d members equal another one' % (i, same, y[1].size))
        if y3[0] == 'ok':
            us.append(uniform(d, kw, y3[1]))
            tags.append('op %d under another seed' % i)
    for o in runs:
        res.values(C.outs(o))
    res.nontrivial = bool(res.stats.get('pool-task'))
    if not us:
        return res
    # no random number is used twice
    flat = np.concatenate([u.ravel() for u in us])
    src = np.concatenate([np.full(u.size, j) for j, u in enumerate(us)])
    keep = (flat > 1e-6) & (flat < 1 - 1e-6)
    flat, src = flat[keep], src[keep]
    k = np.argsort(flat)
    near = np.diff(flat[k]) < 1e-12
    if near.sum() > 4:
        j = int(np.argmax(near))
        res.bad('repeated', '%d of %d random numbers are used more than once (e.g. %s and %s)' % (
            int(near.sum()), flat.size, tags[src[k[j]]], tags[src[k[j + 1]]]))
    res.hit('random-numbers', int(flat.size))
    mirror = np.diff(np.sort(np.abs(flat - 0.5))) < 1e-11
    if mirror.sum() > near.sum() + 4:
        res.bad('repeated', '%d of %d random numbers are mirror images of others' % (int(mirror.sum()), flat.size))
    # fit, overall and per slice of the mapped axis
    for u, t in zip(us, tags):
        ks(res, u.ravel(), t)
        if u.size * max(u.min(), 1 - u.max()) > 27:
            res.bad('distribution', '%s: none of %d members lies in a tail of the distribution (%g .. %g)' % (t, u.size, u.min(), u.max()))
        for ax in range(1, u.ndim):
            for s in range(u.shape[ax]):
                ks(res, np.take(u, s, ax).ravel(), '%s slice %d of axis %d' % (t, s, ax - 1))
        z = (u.reshape(u.shape[0], -1) - 0.5) * np.sqrt(12)
        for ax, what in ((1, 'cells'), (0, 'members')):
            e = C.even(z, ax)
            if e:
                res.bad('dependent', '%s: the %s are not independent: their sums hardly vary (%.2g, at least %.2g expected)' % ((t, what) + e))
        e = C.circular(u)
        if e:
            res.bad('dependent', '%s: %s' % (t, e))
        # independence of the cells: the variance of the mean over cells is 1 / (12 cells)
        m = u.reshape(u.shape[0], -1)
        if m.shape[1] > 1:
            v = ((m.mean(axis=1) - 0.5) ** 2).sum() * 12 * m.shape[1]
            hi = stats.chi2.isf(1e-10, m.shape[0]) * 1.3
            if v > hi:
                res.bad('dependent', '%s: the cells are not independent (statistic %.1f, bound %.1f)' % (t, v, hi))
            v = ((m.mean(axis=0) - 0.5) ** 2).sum() * 12 * m.shape[0]
            hi = stats.chi2.isf(1e-10, m.shape[1]) * 1.3
            if v > hi:
                res.bad('dependent', '%s: the members are not independent (statistic %.1f, bound %.1f)' % (t, v, hi))
    # calls are independent of each other
    if len({u.shape for u in us}) == 1 and len(us) > 1:
        m = np.stack([u.ravel() for u in us])
        v = ((m.mean(axis=0) - 0.5) ** 2).sum() * 12 * m.shape[0]
        hi = stats.chi2.isf(1e-10, m.shape[1]) * 1.1
        if v > hi:
            res.bad('dependent', 'the calls are not independent (statistic %.1f, bound %.1f)' % (v, hi))
    return res


def clipped(res, d, kw, x, what):
    """Members below the clipping value are zero, the others follow the distribution above it."""
    c = float(kw['clip_member_to_zero'])
    res.hit('clipped')
    keep = (x >= c) & ((x != 0) | (c > 0))
    if not (x[~keep] == 0).all():
        res.bad('distribution', '%s: a member of %r although members below %g are set to zero' % (what, x[~keep][np.argmax(x[~keep] != 0)], c))
        return
    p = np.broadcast_to(uniform(d, kw, np.full(x.shape[1:], c)), x.shape).clip(0, 1)
    n, mean, var = int((~keep).sum()), p.sum(), (p * (1 - p)).sum()
    t = abs(n - mean)
    if t > 1 and 2 * np.exp(-t * t / (2 * (var + t / 3))) < 1e-11:
        res.bad('distribution', '%s: %d of %d members are clipped to zero, expected %.1f' % (what, n, x.size, mean))
    if keep.any():
        with np.errstate(invalid='ignore', divide='ignore'):
            u = ((uniform(d, kw, x) - p) / (1 - p))[keep & (p < 1 - 1e-6)]
        if u.size:
            ks(res, u.clip(0, 1), what + ' (above the clipping value)')


def ks(res, u, what):
    n = u.size
    x = np.sort(u)
    d = max((np.arange(1, n + 1) / n - x).max(), (x - np.arange(n) / n).max())
    if 2 * np.exp(-2 * n * d * d) < 1e-11:
        res.bad('distribution', '%s: %d members do not follow the forecast distribution (KS distance %.3f)' % (what, n, d))
