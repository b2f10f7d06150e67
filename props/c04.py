"""C04: saving intermediate data never changes a metric's value."""
import numpy as np

from sim import ops as O
from sim import proc
from . import c03, common as C

ID = 'C04'
TITLE = 'Saving intermediate data never changes the value of any metric'
LEVEL = 'exploration'
RULE = ('a case is a history (verifiers sharing one working directory, metric calls with confusable arguments, axis and bootstrap changes, process '
        'restarts) run with saving and, as the reference model, without; non-trivial when at least one saved entry was read back; distinct by '
        'event-log digest')
RUNS = {'quick': 4400, 'thorough': 50000}
COMPONENTS = c03.COMPONENTS

METS = {'det': ['error', 'sq_error', 'rmse', 'iou_determ', 'iou_determ', 'f_determ', 'corr'],
        'ens': ['brier', 'brier', 'cdf', 'cdf', 'reliability', 'iou_prob', 'iou_determ', 'binned_spread_skill', 'sharpness', 'roc', 'sq_error', 'crps',
                'error', 'ab_error', 'spread', 'variance', 'corr', 'brier_decomp', 'rmse', 'f_determ'],
        'gauss': ['brier', 'brier', 'cdf', 'reliability', 'iou_prob', 'iou_determ', 'binned_spread_skill', 'roc', 'sq_error', 'crps', 'pit', 'rank_hist',
                  'error', 'ab_error', 'variance', 'corr', 'brier_decomp', 'sharpness', 'f_determ'],
        'hurdle': ['brier', 'cdf', 'reliability', 'iou_prob', 'crps', 'variance', 'f_determ', 'sq_error', 'pit', 'iou_determ']}
METS['gamma'] = METS['gauss']


def thresholds(r, cells):
    """A few thresholds that are easy to confuse."""
    i = r.randrange(64)
    eps = r.choice([1e-9, 1e-7, 1e-5, 3e-3, 1e-12])
    base = r.choice([{'$c': 'd', 'i': i}, 2.0, 1.5])
    pool = [base]
    if isinstance(base, dict):
        pool += [dict(base, add=eps), dict(base, add=-eps), dict(base, add=-2 * eps)]
    else:
        pool += [base + eps, base - eps, -base, int(base)]
    pool += [r.choice([3, 3.0, 0.3, 0.1 + 0.2, 1e3, 10, 1, 11, 0.25, 12.5, 1.25])]
    if cells <= 5 or r.random() < 0.2:
        pool += [{'$d': 'd', 'add': 0.0}, {'$d': 'd', 'add': eps}, {'$d': 'd', 'add': -eps}, {'$d': 'd', 'mul': 0.5}]
    return pool


def gen(r, i, tier):
    kind = r.choice(['det', 'ens', 'ens', 'gauss', 'gamma', 'hurdle'])
    shape = C.pick_shape(r, 0.0)
    if r.random() < 0.35:
        shape = r.choice([[4], [5], [2, 2], [3], [1, 5], [2, 1, 2]])
    elif r.random() < 0.05:
        shape = r.choice([[600], [40, 30], [2, 11, 60], [1500, 2]])
    cells = 1
    for s in shape:
        cells *= s
    d = C.data_spec(r, kind, shape)
    env = {}
    if r.random() < 0.3:
        env['pyanen_tqdm_workers'] = r.choice([2, 3])
    env['pyanen_boot_repeats'] = 4
    rand = kind in ('gauss', 'gamma') and r.random() < 0.3 or kind == 'ens' and r.random() < 0.15 or kind == 'hurdle' and r.random() < 0.15
    scratch = False if rand else r.random() < 0.35
    kw = {'working_directory': r.choice(['wd', 'deep/er/wd', '~/out', './rel']), 'start_from_scratch': scratch}
    if kind in ('gauss', 'gamma') and r.random() < 0.3:
        kw['truncated'] = True
    if kind == 'hurdle':
        kw['n_approx_bins'] = r.choice([2, 4])
        if r.random() < 0.4:
            kw['integration_range'] = {'$t': r.choice([[0.2, 3.0], [0.0, 6.0], [1, 4]])}
        if rand:
            d['zeros'] = 0.5
    mets = list(METS[kind])
    if kw.get('truncated') and kind == 'gamma':
        mets.remove('crps')
    if rand:
        if kind in ('gauss', 'gamma'):
            kw['n_sample_members'] = r.choice([2, 3])
            d['zeros'] = r.choice([None, 0.4])
            mets = mets[:3] + ['prob_to_ens', 'spread', 'rank_hist', 'pit'] * 2
        elif kind == 'ens':
            d['ties'] = r.choice([1, 2, 3])
            mets = ['rank_hist', 'rank_hist', 'cdf', 'brier']
        else:
            mets = ['pit', 'pit', 'cdf', 'brier', 'rank_hist']
    pool = thresholds(r, cells)
    favourite = r.sample(mets, min(len(mets), r.choice([1, 2, 3])))
    names = {}
    incs = []
    sid = 0
    for k in range(r.choice([1, 1, 2, 3])):
        ops = []
        nv = r.choice([1, 1, 2])
        for v in range(nv):
            kk = dict(kw)
            if r.random() < 0.7:
                kk['avg_axis'] = C.axes(r, shape)
            if r.random() < 0.2:
                kk['boot_samples'] = r.choice([2, 5])
            ops.append({'op': 'new', 'v': 'v%d' % v, 'data': 'd', 'kw': kk})
        for _ in range(r.randint(2, 7)):
            v = 'v%d' % r.randrange(nv)
            z = r.random()
            if z < 0.14:
                ops.append({'op': 'set', 'v': v, 'm': 'set_avg_axis', 'a': [C.axes(r, shape)]})
            elif z < 0.2:
                ops.append({'op': 'set', 'v': v, 'm': 'set_boot_samples', 'a': [r.choice([2, 3])]})
            elif z < 0.25:
                ops.append({'op': 'set', 'v': v, 'm': 'disable_boot'})
            else:
                m = r.choice(favourite if r.random() < 0.75 else mets)
                c = C.call(r, v, m, cells, r.choice(pool))
                if m in ('binned_spread_skill', 'reliability') and r.random() < 0.3:
                    c['kw']['nbins'] = r.choice([1, 2, 4, 11])
                if r.random() < (0.5 if m in ('corr', 'brier_decomp') else 0.12) and m not in ('pit', 'prob_to_ens', 'rmse', 'sq_error'):
                    names[m] = names.get(m) or r.choice(['%s x', 'my %s', '%s_1'])
                    c['kw']['save_name'] = names[m] % m
                if m in ('roc', 'iou_prob') and isinstance(c['kw'].get('over', c['kw'].get('below')), dict) and r.random() < 0.5:
                    pass
                ops.append(c)
        for o in ops:
            o['sid'] = sid
            sid += 1
        incs.append({'ops': ops, 'faults': []})
    return {'seed': r.randrange(1 << 30), 'data': {'d': d}, 'env': env, 'incs': incs, 'sched': C.sched(r), 'rand': bool(rand),
            'start_method': r.choice(['fork', 'spawn'])}


def random_metric(plan, op):
    k = plan['data']['d']['kind']
    return plan['rand'] and op.get('m') in ('prob_to_ens', 'spread', 'rank_hist', 'pit') and k != 'det'


def form(x):
    return [form(e) for e in x] if isinstance(x, (tuple, list)) else list(np.shape(x))


def run(plan):
    res = C.Res()
    env = plan['env']
    scratch = any(o['kw'].get('start_from_scratch') for inc in plan['incs'] for o in inc['ops'] if o['op'] == 'new')
    seen = {}
    with C.Scratch() as root, C.Scratch('ref') as rroot:
        for k, inc in enumerate(plan['incs']):
            a = proc.run(root, plan, C.exec_ops(plan, inc['ops'], setup=None), inc=k, env=env, alt=C.other(plan, k))
            b = proc.run(rroot, plan, C.exec_ops(plan, c03.unsaved(inc['ops'])), inc=20 + k,
                         env={x: y for x, y in env.items() if x != 'pyanen_tqdm_workers'})
            res.absorb(a)
            res.absorb(b)
            res.hit('entries-read', sum(1 for l in a.info['log'] if ' fs.open_r ' in l))
            res.values(C.outs(a))
            ax = {}
            for op, x, y in zip(inc['ops'], C.outs(a), C.outs(b)):
                if op['op'] == 'new':
                    ax[op['v']] = [op['kw'].get('avg_axis'), op['kw'].get('boot_samples')]
                elif op.get('m') == 'set_avg_axis':
                    ax.get(op['v'], [0, 0])[0] = op['a'][0]
                elif op.get('m') == 'set_boot_samples':
                    ax.get(op['v'], [0, 0])[1] = op['a'][0]
                elif op.get('m') == 'disable_boot':
                    ax.get(op['v'], [0, 0])[1] = None
                if random_metric(plan, op):
                    st = ax.get(op['v'])
                    if x[0] == 'exc' and y[0] == 'ok':
                        res.bad('differs', '%s raised %s with saving: %s' % (c03.desc(op), x[1], x[2]))
                    if x[0] != 'ok' or st is None or (st[1] is not None and op['m'] == 'spread'):
                        continue
                    key = C.jhash([op['m'], op.get('kw'), st[0] if op['m'] == 'spread' else None])
                    if key in seen:
                        dd = O.same(seen[key], x[1])
                        res.hit('random-repeat')
                        if dd:
                            res.bad('unstable', 'randomly drawn %s changed between two calls although it was saved: %s' % (op['m'], dd))
                    else:
                        seen[key] = x[1]
                    if op['m'] == 'prob_to_ens' and y[0] == 'ok' and O.same(x[1].shape, y[1].shape):
                        res.bad('differs', 'shape of the sampled members: %s vs %s' % (x[1].shape, y[1].shape))
                    continue
                st = ax.get(op['v'], [0, 0])
                if op.get('m') in ('corr', 'brier_decomp') and 'save_name' in op.get('kw', {}) and st[1] is not None:
                    # the saved entry is itself a random draw: of the same form, and the same every time it is asked for
                    if x[0] == 'ok' and y[0] == 'ok':
                        key = C.jhash([op['m'], op['kw'], st])
                        fx, fy = form(x[1]), form(y[1])
                        if fx != fy:
                            res.bad('differs', 'form of the bootstrapped %s with saving: %s, without: %s' % (c03.desc(op), fx, fy))
                        elif not scratch and key in seen and O.same(seen[key], x[1]):
                            res.bad('unstable', 'bootstrapped %s changed between two calls although it was saved' % c03.desc(op))
                        seen[key] = x[1]
                        res.hit('boot-entries')
                    continue
                dd = O.same_outcome(x, y, *c03.tol(op))
                if dd:
                    res.bad('differs', '%s %s with saving vs without: %s' % (op['op'], c03.desc(op), dd))
                res.hit('compared')
    res.nontrivial = res.stats.get('entries-read', 0) > 0
    return res
