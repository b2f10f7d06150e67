"""C02: numerical integration is independent of task order, cores, memory mode, saving and re-executed tasks."""
import numpy as np
from scipy import stats

from sim import ops as O
from sim import proc
from . import common as C

ID = 'C02'
TITLE = 'Numerical integration is independent of task order, cores and memory mode'
LEVEL = 'exploration'
RULE = ('a case is a sequence of integrations (mean, variance, CRPS; verifier type, grid, cores, memory mode, saving, restarts) under one seeded '
        'task schedule with up to three worker deaths, compared with trapezoidal sums computed independently; non-trivial when at least two '
        'cluster tasks ran or a memory-mapped file was used; distinct by event-log digest')
RUNS = {'quick': 6400, 'thorough': 40000}
COMPONENTS = {'real': ['PyAnEn (all of it)', 'numpy memmap on a real scratch file', 'pickle'],
              'stub': ['ray (simulated cluster: order, worker death, at-least-once re-execution, read-only objects)', 'process pools', 'file-operation faults']}
ASSUMPTIONS = ['the cluster re-executes a task whose worker died at most 3 times, as ray does by default']


def cdf_ref(d, x, truncated=False):
    f, k = d['f'], d['kind']
    if k == 'gauss':
        p = stats.norm.cdf(x, f['mu'], f['sigma'])
        if truncated:
            p0 = stats.norm.cdf(0, f['mu'], f['sigma'])
            p = np.where(x >= 0, (p - p0) / (1 - p0), 0.0)
    elif k == 'gamma':
        a, s = (f['unshifted_mu'] / f['sigma']) ** 2, f['sigma'] ** 2 / f['unshifted_mu']
        p = stats.gamma.cdf(x, a, loc=f['shift'], scale=s)
        if truncated:
            p0 = stats.gamma.cdf(0, a, loc=f['shift'], scale=s)
            p = np.where(x >= 0, (p - p0) / (1 - p0), 0.0)
    elif k == 'hurdle':
        a, s = (f['mu'] / f['sigma']) ** 2, f['sigma'] ** 2 / f['mu']
        p = 1 - f['pop'] + np.where(x > 0, f['pop'] * stats.gamma.cdf(x, a, scale=s), 0.0)
    else:
        p = np.mean(np.moveaxis(f, d['axis'], 0) <= x, axis=0)
    return np.clip(p, 0, 1)


def reference(d, m, x, truncated):
    F = np.array([cdf_ref(d, v, truncated) for v in x])
    o = d['o']
    sh = (-1,) + (1,) * o.ndim
    X = x.reshape(sh)
    if m == 'crps':
        b = np.array([(F[i] - (o < x[i])) ** 2 for i in range(len(x))])
        return 0.5 * np.sum((b[1:] + b[:-1]) * (X[1:] - X[:-1]), axis=0)
    dF = F[1:] - F[:-1]
    mean = 0.5 * np.sum((X[1:] + X[:-1]) * dF, axis=0)
    if m in ('mean', 'f_determ'):
        return mean
    return 0.5 * np.sum((X[1:] ** 2 + X[:-1] ** 2) * dF, axis=0) - mean ** 2


def gen(r, i, tier):
    kind = r.choice(['hurdle', 'hurdle', 'hurdle', 'gauss', 'gamma', 'ens'])
    shape = C.pick_shape(r, 0.15)
    if r.random() < 0.02:
        shape = r.choice([[600], [40, 30], [3, 7, 50]])
    d = C.data_spec(r, kind, shape)
    if kind != 'ens' and r.random() < 0.12:
        d['nan'], d['nan_f'], d['nan_o'] = r.choice([0.1, 0.3]), True, False      # missing forecasts
    saving = r.random() < 0.5
    kw = {}
    if kind in ('gauss', 'gamma'):
        kw['truncated'] = r.random() < 0.3
    if saving:
        kw['working_directory'] = r.choice(['wd', 'a/b', '~/w'])
        kw['start_from_scratch'] = r.random() < 0.5
    env = {'pyanen_tqdm_workers': r.choice([1, 2, 3, 4, 7])}
    if r.random() < 0.5:
        env['pyanen_integrate_with_less_memory'] = 'True'
    if r.random() < 0.3:
        env['pyanen_integrate_range_multiplier'] = r.choice([1, 2, 9])
    if r.random() < 0.25:
        env['pyanen_integrate_wdir'] = '~/tmpint'
    if r.random() < 0.3:
        env['pyanen_tqdm_disable'] = 'False'
    if r.random() < 0.3:
        env['pyanen_tqdm_map_axis'] = -r.randint(1, len(shape))
    nb = r.choice([2, 3, 4, 6, 9, 20])
    if r.random() < 0.03:
        nb = r.choice([51, 101, 130])
    rng = None if r.random() < 0.5 else r.choice([[0.0, 12.0], [-3.0, 20.0], [0, 9]])
    if kind == 'hurdle':
        kw['n_approx_bins'] = nb
        if rng:
            kw['integration_range'] = {'$t': rng}
        if r.random() < 0.4:
            kw['avg_axis'] = C.axes(r, shape)
    incs = []
    for k in range(r.choice([1, 1, 2])):
        ops = [{'op': 'new', 'v': 'v', 'data': 'd', 'kw': dict(kw, **({'start_from_scratch': False} if saving and k else {}))}]
        cores = env['pyanen_tqdm_workers']
        for _ in range(r.randint(1, 3)):
            if kind == 'hurdle' and r.random() < 0.6:
                op = {'op': 'call', 'v': 'v', 'm': r.choice(['crps', 'f_determ', 'variance'])}
                op['nb'], op['rng'] = nb, rng
            else:
                # one grid per verifier type unless saving is off (entries are per threshold, so any grid is legal)
                nb2 = r.choice([nb, nb, 2, 5])
                kw2 = {'nbins': nb2}
                rng2 = rng if r.random() < 0.6 else None
                if rng2:
                    kw2['integration_range'] = {'$t': rng2}
                if r.random() < 0.35:
                    kw2['less_memory'] = r.random() < 0.5
                if r.random() < 0.3:
                    kw2['workers'] = r.choice([1, 2, 5])
                    cores = max(cores, kw2['workers'])
                if r.random() < 0.2:
                    kw2['memmap_dir'] = r.choice(['scr', './'])
                op = {'op': 'integ', 'v': 'v', 'm': r.choice(['crps', 'mean', 'variance']), 'kw': kw2, 'nb': nb2, 'rng': rng2}
                if ops[-1]['op'] == 'integ' and r.random() < 0.4:
                    op = dict(ops[-1], m=op['m'])
                if r.random() < 0.5:
                    op['obj'] = C.jhash(op['kw'])[:6]
            ops.append(op)
        faults = []
        serial = [o for o in ops[1:] if o.get('kw', {}).get('workers', env['pyanen_tqdm_workers']) == 1]
        if not serial and r.random() < 0.7:
            for _ in range(r.randint(1, 3)):
                cls = r.choice(['task', 'task', 'w:any'] + (['w:fs', 'w:fs.write', 'w:fs.open_w', 'w:fs.rename', 'w:fs.close', 'w:fs.stat'] if saving else []))
                f = {'cls': cls, 'n': r.randint(1, 2 * nb if cls == 'task' else 4 * nb),
                     'kind': r.choice(['die', 'die', 'die_after']) if cls == 'task' else 'crash', 'frac': r.choice([0.0, 0.4, 0.9, 1.0])}
                faults.append(f)
        incs.append({'ops': ops, 'faults': faults})
    return {'seed': r.randrange(1 << 30), 'data': {'d': d}, 'env': env, 'incs': incs, 'sched': C.sched(r), 'fsched': C.sched(r),
            'short': r.random() < 0.3, 'start_method': 'fork'}


def run(plan):
    res = C.Res()
    spec = plan['data']['d']
    d = dict(O.build_data(spec), axis=spec.get('axis', -1))
    env = dict(plan['env'])
    mult = int(env.get('pyanen_integrate_range_multiplier', 5))
    with C.Scratch() as root:
        for k, inc in enumerate(plan['incs']):
            def setup(ctx, w):
                import os
                for p in ('home/tmpint', 'scr'):
                    os.makedirs(os.path.join(w.root, p), exist_ok=True)
            out = proc.run(root, plan, C.exec_ops(plan, inc['ops'], setup), inc=k, faults=inc['faults'], env=env)
            res.absorb(out)
            got = C.outs(out)
            res.values(got)
            new = [o for o in inc['ops'] if o['op'] == 'new']
            if out.how == 'crash' or len(got) < len(inc['ops']):
                continue
            for op, y in zip(inc['ops'], got):
                if op['op'] == 'new':
                    if y[0] == 'exc':
                        res.bad('raised', 'constructing the verifier raised %s %s' % y[1:])
                    continue
                if y[0] == 'skip' or not new:
                    continue
                vmin, vmax = float(np.min(d['o'])), float(np.max(d['o']))
                lo, hi = op['rng'] or (vmin - mult * (vmax - vmin), vmax + mult * (vmax - vmin))
                x = np.linspace(lo, hi, op['nb'])
                ref = reference(d, op['m'], x, bool(new[0]['kw'].get('truncated')))
                if op['op'] == 'call' and op['m'] == 'crps':
                    ax = new[0]['kw'].get('avg_axis')
                    ax = None if ax is None else tuple(ax['$t']) if isinstance(ax, dict) else ax
                    ref = ref.mean(axis=ax)
                if y[0] == 'exc':
                    res.bad('raised', '%s raised %s: %s' % (op['m'], y[1], y[2]))
                    continue
                scale = max(abs(lo), abs(hi), 1.0) ** 2
                dd = O.same(y[1], ref, 1e-8, 1e-10 * scale)
                if dd:
                    res.bad('differs', '%s %s vs trapezoidal sums: %s' % (op['m'], op.get('kw', ''), dd))
                res.hit('integrations')
    res.nontrivial = res.stats.get('ray-task', 0) >= 2 or 'True' in (env.get('pyanen_integrate_with_less_memory'),)
    return res
