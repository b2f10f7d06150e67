"""C01: pool evaluation equals serial evaluation, cell for cell."""
from sim import ops as O
from sim import proc
from . import common as C

ID = 'C01'
TITLE = 'Worker-pool evaluation gives the serial result, cell for cell'
LEVEL = 'exploration'
RULE = ('a case is one generated workload (data, layout, settings, metric sequence) run once with one worker and once under a '
        'seeded pool schedule; non-trivial when at least two pool or cluster tasks ran; distinct by the digest of the event log and the plan')
RUNS = {'quick': 4500, 'thorough': 40000}
COMPONENTS = {'real': ['PyAnEn (all of it)', 'tqdm.contrib.concurrent.process_map', 'numpy/scipy/sklearn/pandas/properscoring'],
              'stub': ['concurrent.futures.ProcessPoolExecutor (simulated workers, pickled arguments and results)', 'ray', 'clock/entropy']}


def gen(r, i, tier):
    kind = r.choice(['ens', 'ens', 'gauss', 'gamma', 'gauss', 'gamma', 'hurdle', 'hurdle'])
    big = r.random() < 0.03
    shape = C.pick_shape(r, 0.3)
    if big and kind == 'ens':
        shape = r.choice([[1003], [17, 61], [11, 10, 10]])
    elif big:
        shape = r.choice([[70], [2, 130], [33, 20], [1030], [5, 2, 41]])
    d = C.data_spec(r, kind, shape)
    if big and kind == 'ens':
        d['members'] = 2
    elif kind == 'ens' and r.random() < 0.04:
        d['members'] = r.choice([1, 21, 33, 64])
    env = {'pyanen_tqdm_workers': r.choice([2, 2, 3, 4, 5, 9, 16]),
           'pyanen_tqdm_map_axis': -r.randint(1, len(shape)),
           'pyanen_tqdm_chunksize': r.choice([1, 1, 2, 3, 5, 7, 1000])}
    if r.random() < 0.05:
        d['layout'] = 'f4'
    nan = r.random() < 0.3
    if nan:
        d['nan'] = r.choice([0.1, 0.3, 0.6])
        d['nan_f'] = r.random() < 0.5
        if r.random() < 0.8:
            env['pyanen_skip_nan'] = 'True'
    if kind == 'ens' and r.random() < 0.35 and not big:
        env['pyanen_ens_to_prob_method'] = 'kde'
        env['pyanen_kde_samples'] = r.choice([10, 50])
    if r.random() < 0.3:
        env['pyanen_tqdm_disable'] = 'False'
    kw = {}
    if kind in ('gauss', 'gamma'):
        kw['truncated'] = r.random() < 0.5
    if r.random() < 0.8:
        kw['avg_axis'] = C.axes(r, shape)
    if kind == 'hurdle':
        kw['n_approx_bins'] = r.choice([3, 5, 8])
        if r.random() < 0.4:
            kw['integration_range'] = {'$t': r.choice([[0.2, 3.0], [0.0, 6.0], [1, 4]])}
    if r.random() < 0.12:
        kw.update(working_directory='wd', start_from_scratch=r.random() < 0.5)
    if r.random() < 0.2:
        env['pyanen_split_crps_ensemble_along_0'] = 'True'
    ops = [{'op': 'new', 'v': 'v', 'data': 'd', 'kw': kw}]
    mets = ['cdf', 'cdf', 'sharpness', 'brier', 'brier_decomp', 'reliability', 'roc', 'iou_prob', 'binned_spread_skill', 'pit', 'rank_hist']
    for _ in range(r.randint(1, 2 if big else 4)):
        m = r.choice(mets)
        if r.random() < 0.15 and not big:
            m = r.choice(['crps', 'variance', 'f_determ', 'error', 'sq_error', 'ab_error', 'rmse', 'corr', 'iou_determ'] + (['spread'] if kind == 'ens' else []))
        if m == 'pit' and kind == 'ens':
            m = 'rank_hist'
        ops.append(C.call(r, 'v', m))
        if m in ('cdf', 'sharpness', 'brier') and r.random() < 0.35:       # per-cell thresholds
            k = list(ops[-1]['kw'])[0]
            ops[-1]['kw'] = {k: {'$d': 'd', 'field': 'o', 'mul': r.choice([1.0, 0.5, 1.1]), 'add': r.choice([0.0, 0.2])}}
    if r.random() < 0.4:
        ops.append(util_op(r, kind, d))
    if kind == 'ens' and len(shape) >= 2 and r.random() < 0.4 and not big:
        # the utility functions accept any ensemble axis
        ax = r.randrange(len(shape) + 1)
        d2 = dict(d, axis=ax, seed=r.randrange(1 << 30))
        d2.pop('nan', None)
        if r.random() < 0.5:
            ops.append({'op': 'util', 'mod': 'verify', 'fn': 'rank_histogram', 'kw':
                        {'f': {'$raw': ['e', 'f']}, 'o': {'$raw': ['e', 'o']}, 'ensemble_axis': ax}})
        else:
            ops.append({'op': 'util', 'mod': 'verify', 'fn': 'ens_to_prob', 'kw':
                        {'f': {'$raw': ['e', 'f']}, 'ensemble_aixs': ax, r.choice(['over', 'below']):
                         r.choice([1.5, 3.0, {'$raw': ['e', 'o']}])}})
        return plan(r, {'d': d, 'e': d2}, env, ops)
    return plan(r, {'d': d}, env, ops)


def util_op(r, kind, d):
    t = r.choice([1.5, 3, {'$raw': ['d', 'o']}])
    if kind == 'gauss':
        return {'op': 'util', 'mod': 'dist', 'fn': 'cdf_gaussian', 'kw': {'mu': {'$raw': ['d', 'mu']}, 'sigma': {'$raw': ['d', 'sigma']},
                'below': t, 'truncated': r.random() < 0.5}}
    if kind == 'gamma':
        return {'op': 'util', 'mod': 'dist', 'fn': 'cdf_gamma', 'kw': {'unshifted_mu': {'$raw': ['d', 'unshifted_mu']},
                'sigma': {'$raw': ['d', 'sigma']}, 'shift': {'$raw': ['d', 'shift']}, 'below': t, 'truncated': r.random() < 0.5}}
    if kind == 'hurdle':
        return {'op': 'util', 'mod': 'dist', 'fn': 'cdf_gamma_hurdle', 'kw': {'pop': {'$raw': ['d', 'pop']}, 'mu': {'$raw': ['d', 'mu']},
                'sigma': {'$raw': ['d', 'sigma']}, 'below': r.choice([0.0, 0, t])}}
    return {'op': 'util', 'mod': 'verify', 'fn': 'rank_histogram', 'kw': {'f': {'$raw': ['d', 'f']}, 'o': {'$raw': ['d', 'o']},
            'ensemble_axis': d['axis']}}


def plan(r, data, env, ops):
    return {'seed': r.randrange(1 << 30), 'data': data, 'env': env, 'ops': ops, 'sched': C.sched(r),
            'start_method': r.choice(['fork', 'fork', 'spawn'])}


def run(plan):
    res = C.Res()
    body = C.exec_ops(plan, plan['ops'])
    with C.Scratch() as root:
        ser = proc.run(root, plan, body, env=dict(plan['env'], pyanen_tqdm_workers=1))
    with C.Scratch() as root:
        par = proc.run(root, plan, body, env=plan['env'], inc=1)
    res.absorb(ser)
    res.absorb(par)
    a, b = C.outs(ser), C.outs(par)
    res.values(a)
    res.values(b)
    for op, x, y in zip(plan['ops'], a, b):
        d = O.same_outcome(x, y)
        if d:
            res.bad('differs', '%s with one worker vs a pool: %s' % (describe(op), d))
        if x[0] == 'exc':
            res.hit('op-raised')
    tasks = res.stats.get('pool-task', 0) + res.stats.get('ray-task', 0)
    res.hit('ops-compared', len(a))
    res.nontrivial = tasks >= 2
    return res


def describe(op):
    return '%s %s' % (op.get('m') or op.get('fn') or op['op'], op.get('kw', ''))
