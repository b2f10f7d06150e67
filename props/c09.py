"""C09: bootstrap intervals are correct for every random resampling."""
import numpy as np
from scipy import stats

from sim import ops as O
from sim import proc
from . import common as C

ID = 'C09'
TITLE = 'Bootstrap intervals are correct for every random resampling'
LEVEL = 'exploration'
RULE = ('a case is one bootstrapped metric on one data set, averaging axis, sample size, number of repeats, confidence level and random stream (serial or '
        'with a pool under a seeded schedule); triplets are compared with the samples of their own cell or bin and with an independent bootstrap of the '
        'un-bootstrapped metric by order-statistic tests with error rate below 1e-10; repeated under the same and another seed; non-trivial when the '
        'samples of a cell differ; distinct by value digest')
RUNS = {'quick': 1700, 'thorough': 20000}
COMPONENTS = {'real': ['PyAnEn (all of it)', 'numpy generator (seeded: the random stream of a run is a function of its seed)'],
              'stub': ['process pools', 'ray', 'clock/entropy']}
ASSUMPTIONS = ['statistical tests have a chance of false alarm below 1e-10 each']

MEAN = {'det': ['error', 'sq_error', 'ab_error', 'rmse'], 'ens': ['error', 'sq_error', 'crps', 'spread', 'brier', 'rmse'],
        'gauss': ['error', 'crps', 'brier', 'ab_error'], 'gamma': ['crps', 'brier', 'sq_error'], 'hurdle': ['brier']}
SHAPES = [[12], [30], [3, 12], [10, 3], [2, 4, 6], [8, 2], [2, 20], [1, 15], [6, 5, 2]]


def gen(r, i, tier):
    sc = r.choice(['mean', 'mean', 'mean', 'corr', 'decomp', 'rel', 'ss'])
    kind = {'mean': lambda: r.choice(['det', 'det', 'ens', 'gauss', 'gamma', 'hurdle']), 'corr': lambda: r.choice(['det', 'det', 'ens', 'gauss']),
            'decomp': lambda: r.choice(['ens', 'gauss']), 'rel': lambda: r.choice(['ens', 'ens', 'gauss']), 'ss': lambda: r.choice(['gauss', 'gamma', 'ens'])}[sc]()
    shape = r.choice(SHAPES)
    if r.random() < 0.04:
        shape = r.choice([[3, 130], [300], [110, 2]])
    d = {'kind': kind, 'shape': shape, 'seed': r.randrange(1 << 30)}
    if kind == 'ens':
        d.update(members=1 if sc == 'rel' else r.choice([3, 6]), axis=r.choice([-1, 0]))
    ax = list(range(len(shape)))
    if r.random() < 0.7 and len(shape) > 1:
        ax = sorted(r.sample(ax, r.randint(1, len(shape) - 1)))
        if np.prod([shape[a] for a in ax]) < 4:
            ax = [int(np.argmax(shape))]
    if r.random() < 0.15:
        r.shuffle(ax)
    if r.random() < 0.2:
        ax = [i - len(shape) if r.random() < 0.6 else i for i in ax]      # counted from the end
    if r.random() < 0.04:
        d['shape'] = shape = r.choice([[2, 4, 6], [6, 5, 2], [3, 5, 4], [2, 2, 3, 5]])
        ax = [len(shape) - 2, -1]
    axis = None if len(ax) == len(shape) and r.random() < 0.5 else {'$t': ax}
    env = {'pyanen_boot_repeats': r.choice([1, 20, 60, 150, 400]), 'pyanen_boot_confidence': r.choice([0.5, 0.6, 0.8, 0.9, 0.95, 0.99])}
    if r.random() < 0.03:
        env['pyanen_boot_repeats'] = 1000
    if sc == 'mean' and r.random() < 0.2 and kind != 'ens':
        d['nan'] = 0.15
        env['pyanen_skip_nan'] = 'True'
    if sc == 'corr' and r.random() < 0.25:
        d['nan'] = 0.15
        env['pyanen_skip_nan'] = 'True'
    if r.random() < 0.2:
        env['pyanen_skip_nan'] = 'True'                # nothing is missing: no difference
    if sc == 'mean' and r.random() < 0.2:
        env['pyanen_tqdm_workers'] = r.choice([2, 3])
    n = r.choice([1, 2, 5, 12, 40] + [200] * (sc != 'mean')) if sc in ('mean', 'rel', 'ss') else r.choice([10, 25, 60])
    if sc == 'corr' and r.random() < 0.25:
        n = r.choice([2, 3, 4])
    if r.random() < 0.03:
        n = r.choice([200, 1100])
    if d.get('nan'):
        n = r.choice([20, 40])
    m, kw = {'mean': lambda: (r.choice(MEAN[kind]), None), 'corr': lambda: ('corr', {}), 'decomp': lambda: ('brier_decomp', None),
             'rel': lambda: ('reliability', None), 'ss': lambda: ('binned_spread_skill', {'nbins': r.choice([1, 2, 3])})}[sc]()
    if kw is None:
        kw = C.one_sided(r, r.choice([2.0, 3.0, 4.0])) if m in ('brier', 'brier_decomp', 'reliability') else {}
        if m == 'reliability':
            kw['nbins'] = r.choice([2, 4, 10])
    if sc == 'corr' and r.random() < 0.3 or sc == 'decomp' and r.random() < 0.4:
        d['perfect'] = True
    many = 0
    if r.random() < (0.12 if sc in ('mean', 'corr') else 0.06) and not d.get('nan'):
        # many random streams on the same data: a sharp test of the confidence level
        many = 30
        env['pyanen_boot_repeats'] = 100 if sc == 'decomp' else 200
        env['pyanen_boot_confidence'] = r.choice([0.5, 0.8, 0.9, 0.95])
        d['shape'] = r.choice([[14], [2, 12], [30]])
        axis = r.choice([None, {'$t': [len(d['shape']) - 1]}])
        n = r.choice([10, 25])
        env.pop('pyanen_tqdm_workers', None)
    return {'util': r.random() < 0.2, 'many': many, 'seed': r.randrange(1 << 30), 'sc': sc, 'data': {'d': d}, 'axis': axis, 'n': n, 'm': m, 'kw': kw, 'env': env, 'rs': r.randrange(1 << 31),
            'sched': C.sched(r), 'fsched': [], 'start_method': 'fork'}


def ops_for(plan, axis, n, m=None, kw=None, seed=None):
    k = {'avg_axis': axis}
    if plan['data']['d']['kind'] == 'ens':
        k['ensemble_axis'] = plan['data']['d']['axis']
    if n:
        k['boot_samples'] = n
    return [{'op': 'new', 'v': 'v', 'data': 'd', 'kw': k}] + ([{'op': 'seed', 'n': seed}] if seed is not None else []) + [
        {'op': 'call', 'v': 'v', 'm': m or plan['m'], 'kw': plan['kw'] if kw is None else kw}]


def body(plan, ops):
    def go(w):
        ctx = O.Ctx(plan, w)
        for i, op in enumerate(ops):
            w.send(('r', i, O.perform(ctx, op, w), None, []))
    return go


def value(plan, res, ops, inc=0, env=None):
    with C.Scratch() as root:
        out = proc.run(root, plan, body(plan, ops), inc=inc, env=env or plan['env'])
    res.absorb(out)
    return C.outs(out)[-1]


def cells(a, axis):
    """Samples first, kept cells flattened: (P, K), and the kept shape."""
    ax = list(range(a.ndim)) if axis is None else sorted(i % a.ndim for i in axis['$t'])
    keep = [i for i in range(a.ndim) if i not in ax]
    b = a.transpose(ax + keep)
    ks = tuple(a.shape[i] for i in keep)
    return b.reshape(int(np.prod([a.shape[i] for i in ax])), int(np.prod(ks)) if ks else 1), ks


def boots(S, n, rng, R):
    """Independent bootstrap of the (nan-)mean."""
    P = len(S)
    c = rng.multinomial(n, [1.0 / P] * P, size=R).astype(float)
    ok = ~np.isnan(S)
    den = c[:, ok].sum(axis=1)
    with np.errstate(invalid='ignore', divide='ignore'):
        return c[:, ok] @ S[ok] / den


def judge_many(res, what, trips, T, R, conf):
    """The bounds of many triplets with independent random streams: where they lie in the distribution of the statistic, on average."""
    trips = np.asarray(trips, float)
    if not np.isfinite(T).all() or not np.isfinite(trips).all() or len(np.unique(T)) < 0.97 * len(T):
        return
    T = np.sort(T)
    M, q = len(trips), len(T)
    # the middle values: the right mean, and as random as means of R independent repeats
    sd = T.std()
    z = (trips[:, 1].mean() - T.mean()) / (sd * np.sqrt(1.0 / (M * R) + 1.0 / q))
    if sd > 0 and abs(z) > 9:
        res.bad('centre', '%s: over %d random streams the middle value is on average %r, expected %r (%.1f standard deviations)' % (
            what, M, trips[:, 1].mean(), T.mean(), z))
    v = ((trips[:, 1] - trips[:, 1].mean()) ** 2).sum() * R / sd ** 2 if sd > 0 else M - 1
    if v < stats.chi2.ppf(1e-12, M - 1) * 0.6 or v > stats.chi2.isf(1e-12, M - 1) * 1.5:
        res.bad('centre', '%s: over %d random streams the middle value varies with variance %.3g times what independent repeats give' % (what, M, v / (M - 1)))
    d = (1 - conf) / 2
    for col, p, side in ((0, d, 'lower'), (2, 1 - d, 'upper')):
        e = (p * (R - 1) + 1) / (R + 1)
        F = (np.searchsorted(T, trips[:, col], 'left') + np.searchsorted(T, trips[:, col], 'right')) / 2.0 / q
        sd = np.sqrt(e * (1 - e) * (1.0 / (M * (R + 2)) + 1.0 / q))
        z = (F.mean() - e) / sd
        res.hit('sharp-levels')
        if abs(z) > 8.5:
            res.bad('level', '%s: over %d random streams the %s bound is on average at the %.4f quantile of the statistic, expected %.4f (%.1f '
                    'standard deviations)' % (what, M, side, F.mean(), e, z))


def judge(res, what, trip, T, R, conf, lo=None, hi=None, undefined=False):
    """One triplet against independent bootstrap statistics T."""
    a, m, b = (float(x) for x in trip)
    if not np.isfinite([a, m, b]).all():
        if np.isfinite(T).all() and not undefined:
            res.bad('missing', '%s: the interval is (%r, %r, %r)' % (what, a, m, b))
        return
    part = np.isfinite(T).mean()
    T = T[np.isfinite(T)]
    if not len(T):
        return
    if part < 1:
        # repeats without a value are left out: how many is random
        R = max(1, int(R * part - 7 * np.sqrt(R * part * (1 - part))))
    span = T.max() - T.min()
    eps = 1e-9 * (1 + abs(T).max())
    if a > b + eps:
        res.bad('order', '%s: lower %r is above upper %r' % (what, a, b))
    if lo is not None and (a < lo - eps or b > hi + eps or m < lo - eps or m > hi + eps):
        res.bad('foreign', '%s: the interval (%r, %r, %r) leaves the range [%r, %r] of its own samples' % (what, a, m, b, lo, hi))
        return
    q = len(T)
    sd = T.std()
    if abs(m - T.mean()) > 8.5 * sd * (R ** -0.5 + q ** -0.5) + 4 * span / R / 50 * (R < 5) + eps and R >= 20:
        res.bad('centre', '%s: mean %r, expected %r (spread of the statistic %r, %d repeats)' % (what, m, T.mean(), sd, R))
    if span <= eps * 10:
        if abs(a - T[0]) > eps * 10 or abs(b - T[0]) > eps * 10:
            res.bad('width', '%s: the samples are all equal to %r but the interval is (%r, %r)' % (what, T[0], a, b))
        return
    if R < 20 or part < 1:
        return
    d = (1 - conf) / 2
    for x, p, side in ((a, d, 'lower'), (b, 1 - d, 'upper')):
        k = p * (R - 1)
        le = np.mean(T <= x + eps)
        lt = np.mean(T < x - eps)
        s1 = 7 * np.sqrt(max(le * (1 - le), 1.0 / q) / q) + 5.0 / q
        s2 = 7 * np.sqrt(max(lt * (1 - lt), 1.0 / q) / q) + 5.0 / q
        p1 = stats.binom.sf(np.floor(k + 1e-9) - 1, R, min(1.0, le + s1))     # at least floor(k) statistics up to x
        p2 = stats.binom.cdf(np.ceil(k - 1e-9) + 1, R, max(0.0, lt - s2))       # at most ceil(k)+1 statistics below x
        if p1 < 1e-11 or p2 < 1e-11:
            res.bad('level', '%s: the %s bound %r is at the %.3f quantile of the statistic, expected %.3f (%d repeats)' % (what, side, x, le, p, R))


def run(plan):
    res = C.Res()
    sc, axis, n, env = plan['sc'], plan['axis'], plan['n'], plan['env']
    R, conf = int(env['pyanen_boot_repeats']), float(env['pyanen_boot_confidence'])
    plain_env = {k: v for k, v in env.items() if k != 'pyanen_tqdm_workers'}
    y = value(plan, res, ops_for(plan, axis, n, seed=plan['rs']))
    nd = len(plan['data']['d']['shape'])
    base = value(plan, res, ops_for(plan, axis and {'$t': sorted(i % nd for i in axis['$t'])}, None), inc=1, env=plain_env)
    if base[0] != 'ok':
        return res
    if y[0] != 'ok':
        res.bad('failed', 'bootstrapped %s raised %s: %s' % (plan['m'], y[1], y[2]))
        return res
    again = value(plan, res, ops_for(plan, axis, n, seed=plan['rs']), inc=2)
    dd = O.same_outcome(y, again, 0, 0)
    if dd:
        res.bad('not-reproducible', 're-seeding does not reproduce bootstrapped %s: %s' % (plan['m'], dd))
    rng = np.random.RandomState((plan['seed'] ^ 0x77) % (2 ** 32))
    q = (4000 if sc in ('mean', 'rel', 'ss') else 900) * (5 if plan.get('many') and sc != 'decomp' else 1)
    targets = []
    res.values([y])
    none = {'$t': []}
    name = plan['m']

    def raw(m, kw):
        z = value(plan, res, ops_for(plan, none, None, m=m, kw=kw), inc=3, env=plain_env)
        return z[1] if z[0] == 'ok' else None
    if sc == 'mean':
        r = raw('sq_error' if name == 'rmse' else name, plan['kw'])
        if r is None:
            return res
        S, ks = cells(np.asarray(r, float), axis)
        v = np.asarray(y[1])
        if v.shape != (3,) + ks:
            res.bad('layout', 'bootstrapped %s has shape %s, the un-bootstrapped one %s' % (name, v.shape, ks))
            return res
        v = v.reshape(3, -1)
        if name == 'rmse':
            v = v ** 2
        for c in range(S.shape[1]):
            s = S[:, c]
            ok = s[~np.isnan(s)]
            if not len(ok) or (len(ok) < len(s) and not plan['data']['d'].get('nan')) or not np.isfinite(ok).all():
                continue                                   # the metric itself is missing there
            res.nontrivial = res.nontrivial or np.ptp(ok) > 0
            T = boots(s, n, rng, q)
            judge(res, '%s of cell %d of %s' % (name, c, ks), v[:, c], T, R, conf, ok.min(), ok.max())
            targets.append(('%s of cell %d' % (name, c), lambda y, c=c: np.asarray(y).reshape(3, -1)[:, c] ** (2 if name == 'rmse' else 1), T))
    elif sc in ('corr', 'decomp'):
        d = O.build_data(plan['data']['d'])
        want = np.shape(base[1]) if sc == 'corr' else np.shape(base[1][0])
        vs = [np.asarray(y[1])] if sc == 'corr' else [np.asarray(x) for x in y[1]]
        for v in vs:
            if v.shape != (3,) + want:
                res.bad('layout', 'bootstrapped %s has shape %s, the un-bootstrapped one %s' % (name, v.shape, want))
                return res
        o, ks = cells(d['o'], axis)
        if d['kind'] == 'ens':
            f = np.moveaxis(d['f'], d['axis'], 0)
            f = {'m%d' % j: cells(f[j], axis)[0] for j in range(len(f))}
        else:
            f = {k: cells(x, axis)[0] for k, x in d['f'].items()} if isinstance(d['f'], dict) else {'f': cells(d['f'], axis)[0]}
        P, K = o.shape
        pick = list(range(K)) if K <= 3 else sorted(set([0, K - 1, rng.randint(K)]))
        for c in pick:
            if plan['data']['d'].get('nan'):
                good = ~np.isnan(o[:, c])
                if good.sum() < 4 or n < 20:
                    continue
                src = np.flatnonzero(good)
            else:
                src = np.arange(P)
            idx = src[rng.randint(len(src), size=(q, n))]
            T = resampled(plan, res, {k: x[:, c][idx] for k, x in f.items()}, o[:, c][idx], plain_env)
            if T is None:
                continue
            if plan['data']['d'].get('nan'):
                # missing pairs may be left out before or after resampling
                idx = rng.randint(P, size=(q, n))
                T2 = resampled(plan, res, {k: x[:, c][idx] for k, x in f.items()}, o[:, c][idx], plain_env)
                v = vs[0].reshape(3, -1)[:, c]
                if not np.isfinite(v).all():
                    res.bad('missing', 'bootstrapped corr with missing values skipped is %s where %d pairs are valid' % (tuple(v), len(src)))
                    continue
                tries = []
                for t in (T, T2 or T):
                    z = C.Res()
                    judge(z, 'corr of cell %d of %s, missing values skipped' % (c, ks), v, t[0], R, conf, -1.0, 1.0)
                    tries.append(z.violations)
                if all(tries):
                    res.bad(*tries[0][0])
                res.nontrivial = True
                continue
            for j, t in enumerate(T):
                res.nontrivial = res.nontrivial or np.ptp(t) > 0 or bool(plan['data']['d'].get('perfect'))
                judge(res, '%s[%d] of cell %d of %s' % (name, j, c, ks), vs[j].reshape(3, -1)[:, c], t, R, conf,
                      *((-1.0, 1.0) if sc == 'corr' else (0.0, 1.0)), undefined=n < 10)     # a correlation of equal pairs is undefined
                targets.append(('%s[%d] of cell %d' % (name, j, c), lambda y, j=j, c=c: np.asarray(y if sc == 'corr' else y[j]).reshape(3, -1)[:, c], t))
    elif sc == 'rel':
        f = raw('cdf', {k: v for k, v in plan['kw'].items() if k != 'nbins'})
        o = O.build_data(plan['data']['d'])['o']
        th = plan['kw']
        ob = (o > th['over']) if 'over' in th else (o < th['below'])
        F, ks = cells(np.asarray(f), axis)
        B, _ = cells(ob.astype(float), axis)
        bp, bt, cnt = np.asarray(base[1][0]), np.asarray(base[1][1]), np.asarray(base[1][2])
        p, t = np.asarray(y[1][0]), np.asarray(y[1][1])
        if p.shape != bp.shape + (3,) or t.shape != bt.shape + (3,):
            res.bad('layout', 'bootstrapped reliability has shapes %s, %s; un-bootstrapped %s' % (p.shape, t.shape, bp.shape))
            return res
        K, nb = F.shape[1], bp.shape[-1]
        p, t, cnt = p.reshape(K, nb, 3), t.reshape(K, nb, 3), cnt.reshape(K, nb)
        bp, bt = bp.reshape(K, nb), bt.reshape(K, nb)
        for c in range(K):
            k = np.argsort(F[:, c], kind='stable')
            e = np.concatenate([[0], np.cumsum(cnt[c])]).astype(int)
            for j in range(nb):
                i = k[e[j]:e[j + 1]]
                fb, tb = F[i, c], B[i, c]
                if abs(fb.mean() - bp[c, j]) > 1e-9 or abs(tb.mean() - bt[c, j]) > 1e-9:
                    continue                               # not the bins this check knows
                res.nontrivial = True
                T = boots(fb, n, rng, q)
                judge(res, 'forecast probability of cell %d bin %d' % (c, j), p[c, j], T, R, conf, fb.min(), fb.max())
                targets.append(('forecast probability of cell %d bin %d' % (c, j), lambda y, c=c, j=j: np.asarray(y[0]).reshape(K, nb, 3)[c, j], T))
                T = boots(tb, n, rng, q)
                judge(res, 'observed frequency of cell %d bin %d' % (c, j), t[c, j], T, R, conf, tb.min(), tb.max())
                targets.append(('observed frequency of cell %d bin %d' % (c, j), lambda y, c=c, j=j: np.asarray(y[1]).reshape(K, nb, 3)[c, j], T))
        for k in (2, 3):
            dd = O.same(np.asarray(y[1][k]), np.asarray(base[1][k]))
            if dd:
                res.bad('counts', 'the bin counts differ from the un-bootstrapped ones: %s' % dd)
    else:
        var, sq = raw('variance', {}), raw('sq_error', {})
        V, ks = cells(np.asarray(var), axis)
        E, _ = cells(np.asarray(sq), axis)
        nb, K = plan['kw']['nbins'], V.shape[1]
        bs, br = (np.asarray(x).reshape(K, nb) for x in base[1])
        s, e = (np.asarray(x) for x in y[1])
        if s.shape != np.shape(base[1][0]) + (3,) or e.shape != s.shape:
            res.bad('layout', 'bootstrapped spread-skill has shape %s, un-bootstrapped %s' % (s.shape, np.shape(base[1][0])))
            return res
        s, e = s.reshape(K, nb, 3) ** 2, e.reshape(K, nb, 3) ** 2
        for c in range(K):
            parts = np.array_split(np.argsort(V[:, c], kind='stable'), nb)
            for j, i in enumerate(parts):
                v, w = V[i, c], E[i, c]
                if abs(v.mean() - bs[c, j] ** 2) > 1e-8 * (1 + v.mean()) or abs(w.mean() - br[c, j] ** 2) > 1e-8 * (1 + w.mean()):
                    continue
                res.nontrivial = True
                T = boots(v, n, rng, q)
                judge(res, 'variance of cell %d bin %d' % (c, j), s[c, j], T, R, conf, v.min(), v.max())
                targets.append(('variance of cell %d bin %d' % (c, j), lambda y, c=c, j=j: np.asarray(y[0]).reshape(K, nb, 3)[c, j] ** 2, T))
                T = boots(w, n, rng, q)
                judge(res, 'squared error of cell %d bin %d' % (c, j), e[c, j], T, R, conf, w.min(), w.max())
                targets.append(('squared error of cell %d bin %d' % (c, j), lambda y, c=c, j=j: np.asarray(y[1]).reshape(K, nb, 3)[c, j] ** 2, T))
    res.hit('triplets')
    if plan.get('util') and targets and not res.violations and name != 'rmse' and not plan['data']['d'].get('nan'):
        helper(plan, res, targets, R, conf)
    if plan.get('many') and targets and not res.violations:
        base = ops_for(plan, axis, n)
        seq = base[:1]
        for k in range(plan['many']):
            seq = seq + [{'op': 'seed', 'n': (plan['rs'] + 7919 * (k + 1)) % (2 ** 31)}, base[-1]]
        with C.Scratch() as root:
            out = proc.run(root, plan, body(plan, seq), inc=5, env=plan['env'])
        res.absorb(out)
        ys = [x[1] for o, x in zip(seq, C.outs(out)) if o['op'] == 'call' and x[0] == 'ok']
        if len(ys) == plan['many']:
            for what, get, T in targets[:4]:
                judge_many(res, what, [get(y) for y in ys], T, R, conf)
    return res


def helper(plan, res, targets, R, conf):
    """The helper functions, called by the user with the settings as arguments (the process-wide ones are others)."""
    sc, kw, n = plan['sc'], {a: O.decode(b, None) for a, b in plan['kw'].items()}, plan['n']
    ax = None if plan['axis'] is None else tuple(plan['axis']['$t'])
    one = {a: b for a, b in kw.items() if a != 'nbins'}
    k = plan['data']['d']['kind']

    def go(w):
        import PyAnEn
        from PyAnEn import utils_special_boot as sb, utils_ss as ss, utils_verify as uv
        d = O.build_data(plan['data']['d'])
        v = getattr(PyAnEn, O.CLS[k])(d['f'], d['o'], avg_axis=(), **({'ensemble_axis': plan['data']['d']['axis']} if k == 'ens' else {}))
        np.random.seed(plan['rs'])
        try:
            if sc == 'mean':
                r = uv.boot_arr(np.asarray(getattr(v, plan['m'])(**kw)), ax, n, R, conf)
            elif sc == 'corr':
                r = sb.corr(v.f_determ(), d['o'], ax, n, R, conf, True, False, False)
            elif sc == 'decomp':
                r = sb.brier_decomp(v.cdf(**one), uv.binarize_obs(d['o'], **one), ax, n, R, conf, True, False, False)
            elif sc == 'rel':
                r = uv.reliability_diagram(v.cdf(**one), uv.binarize_obs(d['o'], **one), kw['nbins'], ax, n, R, conf, False)
            else:
                r = ss.binned_spread_skill(v.variance(), v.sq_error(), kw['nbins'], ax, n, R, conf, False)
        except Exception as e:
            r = e
        w.send(('r', 0, r, None, []))
    with C.Scratch() as root:
        out = proc.run(root, plan, go, inc=6, env={'pyanen_boot_repeats': 3, 'pyanen_boot_confidence': 0.1, 'pyanen_boot_samples': 2})
    res.absorb(out)
    r = out.results[0][1] if out.results else None
    if r is None or isinstance(r, Exception):
        res.bad('failed', 'the helper function behind %s raised %r' % (plan['m'], r))
        return
    res.hit('helper')
    for what, get, T in targets[:6]:
        try:
            trip = np.ravel(get(r))
        except Exception:
            trip = ()
        if len(trip) != 3:
            res.bad('layout', 'the helper function behind %s returns another layout than the metric' % plan['m'])
            return
        judge(res, 'helper function: ' + what, trip, T, R, conf, undefined=sc == 'corr' and n < 10)


def resampled(plan, res, f, o, env):
    """The un-bootstrapped metric on every row of resampled arrays, from the real code."""
    kind = plan['data']['d']['kind']
    f0 = np.stack([f['m%d' % j] for j in range(len(f))], axis=-1) if kind == 'ens' else f['f'] if kind == 'det' else f

    def go(w):
        import PyAnEn
        kw = {'avg_axis': (1,)}
        if kind == 'ens':
            kw['ensemble_axis'] = -1
        v = getattr(PyAnEn, O.CLS[kind])(f0, o, **kw)
        try:
            r = getattr(v, plan['m'])(**{a: O.decode(b, None) for a, b in plan['kw'].items()})
        except Exception:
            r = None
        w.send(('r', 0, r, None, []))
    with C.Scratch() as root:
        out = proc.run(root, plan, go, inc=4, env=env)
    r = out.results[0][1] if out.results else None
    if r is None:
        return None
    return [np.asarray(r)] if plan['m'] == 'corr' else [np.asarray(x) for x in r]
