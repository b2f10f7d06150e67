"""C13: observation ranks break ties uniformly at random, serial or parallel."""
import numpy as np
from scipy import stats

from sim import ops as O
from sim import proc
from . import common as C

ID = 'C13'
TITLE = 'Observation ranks break ties uniformly at random, serial or parallel'
LEVEL = 'exploration'
RULE = ('a case is a rank histogram evaluated many times on data with a chosen amount of ties (none, some, all cells tied, all values equal, members clipped '
        'to zero) and missing values, serial or in a pool under a seeded schedule with forked or spawned workers; every rank is checked against its '
        'bounds and the tie-breaking offsets are tested for uniformity and independence with error rate below 1e-10 per test; non-trivial when tied '
        'cells occur; distinct by event-log and value digest')
RUNS = {'quick': 1400, 'thorough': 12000}
COMPONENTS = {'real': ['PyAnEn rank code', 'numpy and scipy'],
              'stub': ['process pools (each simulated worker has its own generator state: inherited when forked, fresh when spawned)', 'entropy']}
ASSUMPTIONS = ['statistical tests have a chance of false alarm below 1e-10 each']


def gen(r, i, tier):
    shape = r.choice([[4], [8], [1], [12], [3, 4], [4, 3], [2, 5], [2, 3, 4], [2, 1, 3], [6, 2]])
    if r.random() < 0.04:
        shape = r.choice([[600], [30, 40], [130, 2], [2, 130]])
    env = {'pyanen_tqdm_workers': r.choice([1, 1, 2, 3, 4]), 'pyanen_tqdm_chunksize': r.choice([1, 1, 2]), 'pyanen_tqdm_map_axis': -r.randint(1, len(shape))}
    ops = [{'op': 'seed', 'n': r.randrange(1 << 31)}]
    repeat = r.choice([20, 40, 60]) if np.prod(shape) < 100 else 20
    if r.random() < 0.8:
        m = r.choice([1, 2, 3, 4, 5, 9])
        if r.random() < 0.05:
            m = r.choice([21, 40, 64, 130, 300])
        d = {'kind': 'ens', 'shape': shape, 'seed': r.randrange(1 << 30), 'members': m, 'axis': r.choice([-1, 0]), 'ties': r.choice([1, 1, 2, 2, 3, 4, 8])}
        if r.random() < 0.1:
            d.pop('ties')
        if r.random() < 0.25:
            d['alltied'] = True
        if r.random() < 0.2:
            d['near'] = r.choice([1e-12, 1e-9, 1e-6])
        if r.random() < 0.3:
            d['nan'] = r.choice([0.1, 0.4, 1.0])
            d['nan_f'] = r.random() < 0.5
        if r.random() < 0.15:
            d['negz'] = True
        if r.random() < 0.3:
            d['layout'] = r.choice(['F', 'view', 'f4'])
        if d.get('nan') or r.random() < 0.2:
            env['pyanen_skip_nan'] = 'True'
        kw = {'ensemble_axis': d['axis']}
        ops += [{'op': 'new', 'v': 'v', 'data': 'd', 'kw': kw}]
    else:
        d = {'kind': 'gauss', 'shape': shape, 'seed': r.randrange(1 << 30), 'zeros': r.choice([0.5, 1.0])}
        kw = {'n_sample_members': r.choice([2, 4]), 'clip_member_to_zero': r.choice([0.0, 2.0, 3.0]), 'move_sampled_ens_axis': r.choice([-1, 0, 0, 1])}
        # with saving on, the members that are ranked can be asked for
        kw.update(working_directory='wd', start_from_scratch=True)
        for _ in range(repeat // 2):
            ops += [{'op': 'new', 'v': 'v', 'data': 'd', 'kw': kw}, {'op': 'call', 'v': 'v', 'm': 'prob_to_ens', 'kw': {}},
                    {'op': 'call', 'v': 'v', 'm': 'rank_hist', 'kw': {}}]
        repeat = 0
    for _ in range(repeat):
        ops.append({'op': 'call', 'v': 'v', 'm': 'rank_hist', 'kw': {}})
    return {'seed': r.randrange(1 << 30), 'data': {'d': d}, 'env': env, 'ops': ops, 'sched': C.sched(r), 'fsched': [],
            'start_method': r.choice(['fork', 'fork', 'spawn'])}


def body(plan, ops):
    def go(w):
        ctx = O.Ctx(plan, w)
        for i, op in enumerate(ops):
            w.send(('r', i, O.perform(ctx, op, w), None, []))
    return go


def run(plan):
    res = C.Res()
    ops = plan['ops']
    spec = plan['data']['d']
    prob = spec['kind'] != 'ens'
    with C.Scratch() as root:
        out = proc.run(root, plan, body(plan, ops), inc=0, env=plan['env'])
    res.absorb(out)
    res.values(C.outs(out))
    d = O.build_data(spec)
    o = d['o']
    skip = plan['env'].get('pyanen_skip_nan') == 'True'
    z = []                                   # per call: standardised offsets of the tied cells
    pooled = {}
    ens = None
    for i, y, _, _ in out.results:
        op = ops[i]
        if op['op'] == 'new':
            ens = None
        if op['op'] != 'call' or y[0] == 'skip':
            continue
        if y[0] != 'ok':
            res.bad('failed', 'op %d rank_hist raised %s: %s' % (i, y[1], y[2]))
            break
        if op['m'] == 'prob_to_ens':
            ens = y[1]
            continue
        if prob:
            if ens is None:
                continue
            f = np.moveaxis(ens, next(x['kw'] for x in ops if x['op'] == 'new')['move_sampled_ens_axis'], 0)
        else:
            f = np.moveaxis(d['f'], spec['axis'], 0)
        rk = np.asarray(y[1])
        if rk.shape != o.shape:
            res.bad('shape', 'op %d: ranks have shape %s for observations of shape %s' % (i, rk.shape, o.shape))
            break
        missing = np.isnan(o) | np.isnan(f).any(axis=0)
        if missing.any() and skip and not np.isnan(rk.astype(float)[missing]).all():
            res.bad('missing', 'op %d: a cell with missing values has a rank' % i)
            break
        lo = 1 + (f < o).sum(axis=0)
        t = (f == o).sum(axis=0)
        ok = ~missing
        q = rk.astype(float)[ok]
        if np.isnan(q).any() or (q != np.floor(q)).any() or (q < lo[ok]).any() or (q > (lo + t)[ok]).any():
            res.bad('bounds', 'op %d: a rank is outside its bounds (ranks %s, lowest %s, ties %s)' % (i, q[:6], lo[ok][:6], t[ok][:6]))
            break
        off = (q - lo[ok])
        tt = t[ok]
        for a, b in zip(off, tt):
            if b:
                pooled.setdefault(int(b), {}).setdefault(int(a), 0)
                pooled[int(b)][int(a)] += 1
        s = np.where(tt > 0, (off - tt / 2.0) / np.sqrt(((tt + 1.0) ** 2 - 1) / 12 + (tt == 0)), 0.0)
        z.append((s, tt > 0))
    # each admissible rank equally likely
    for b, c in pooled.items():
        n = sum(c.values())
        res.hit('tied-cells', n)
        for j in range(b + 1):
            k = c.get(j, 0)
            p = 1.0 / (b + 1)
            tail = min(stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p))
            if tail < 1e-12:
                res.bad('not-uniform', 'an observation tied with %d members got the %d-th admissible rank %d times out of %d' % (b, j + 1, k, n))
    res.nontrivial = bool(pooled)
    if z and not prob and all(len(s) for s, _ in z):
        zz = np.stack([s for s, _ in z])
        tied = z[0][1]
        zz = zz[:, tied]
        if zz.shape[1] >= 1 and zz.shape[0] > 8:
            R, Cn = zz.shape
            # cells independent within a call; calls independent for a cell
            for stat, n, what in (((zz.sum(axis=1) ** 2 / Cn).sum(), R, 'cells'), ((zz.sum(axis=0) ** 2 / R).sum(), Cn, 'calls')):
                hi = stats.chi2.isf(1e-11, n) * 1.3 + 10
                if stat > hi and (what == 'calls' or Cn > 1):
                    res.bad('dependent', 'the tie-breaking of different %s is not independent (statistic %.1f, bound %.1f)' % (what, stat, hi))
                e = C.even(zz, 1 if what == 'cells' else 0)
                if e:
                    res.bad('dependent', 'the tie-breaking of different %s is not independent: the sums hardly vary (%.2g, at least %.2g expected)' % ((what,) + e))
            # repeated streams shifted by one call
            for lag in (1, 2):
                c = (zz[lag:] * zz[:-lag]).sum()
                if abs(c) > 8 * np.sqrt(zz[lag:].size) and zz[lag:].size > 80:
                    res.bad('dependent', 'the tie-breaking of call k and call k+%d is not independent' % lag)
            # neighbouring cells
            if Cn > 1 and (zz[:, 1:].size > 80):
                c = (zz[:, 1:] * zz[:, :-1]).sum()
                if abs(c) > 8 * np.sqrt(zz[:, 1:].size):
                    res.bad('dependent', 'the tie-breaking of neighbouring cells is not independent')
    return res
