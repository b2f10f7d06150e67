"""C03: saved intermediate results survive crashes and disk errors."""
import os

import numpy as np

from sim import ops as O
from sim import proc
from . import common as C

ID = 'C03'
TITLE = 'Saved intermediate results survive a crash or disk error intact'
LEVEL = 'fault_enumeration'
RULE = ('a case is a metric sequence with saving, run over one to three incarnations, each with faults (kill, torn/short write, disk full, I/O error, '
        'worker death) placed at a step the fault-free run reaches, then a poisoned-data reuse run and a clean reuse run; non-trivial when at least '
        'one fault fired; distinct by event-log digest')
RUNS = {'quick': 2700, 'thorough': 30000}
COMPONENTS = {'real': ['PyAnEn (all of it)', 'pickle', 'Python buffered I/O on real scratch files'],
              'stub': ['file operations pass through a fault-injecting seam', 'process pools', 'ray', 'clock/entropy']}
ASSUMPTIONS = ['a kill loses what the process had not yet handed to the operating system; loss of unsynced pages at power failure is not modelled']

SAVED = {'det': ['error', 'sq_error', 'ab_error', 'rmse', 'f_determ', 'iou_determ'],
         'ens': ['error', 'sq_error', 'rmse', 'f_determ', 'crps', 'spread', 'variance', 'brier', 'reliability', 'binned_spread_skill', 'sharpness',
                 'iou_prob', 'iou_determ', 'cdf', 'rank_hist', 'roc'],
         'gauss': ['error', 'sq_error', 'f_determ', 'crps', 'variance', 'brier', 'reliability', 'binned_spread_skill', 'sharpness', 'iou_prob', 'cdf',
                   'pit', 'rank_hist', 'roc'],
         'hurdle': ['crps', 'variance', 'f_determ', 'brier', 'cdf', 'error', 'sq_error', 'pit', 'reliability']}
SAVED['gamma'] = SAVED['gauss']
MORE = {'det': ['corr', 'corr'], 'ens': ['corr', 'brier_decomp'], 'gauss': ['corr', 'brier_decomp'], 'gamma': ['corr', 'brier_decomp'], 'hurdle': ['brier_decomp']}


RANDOM = ('prob_to_ens', 'spread', 'rank_hist', 'pit')


def workload(r, kinds=('det', 'ens', 'gauss', 'gamma', 'hurdle'), nmax=4, boot=True, wd='wd', par=True, rand=0.0):
    """data, env, kw and metric calls (deterministic intermediates) of one saving verifier."""
    kind = r.choice(kinds)
    shape = C.pick_shape(r, 0.0, mincells=4)
    if r.random() < 0.04:
        shape = r.choice([[1200], [40, 32], [3, 500]])          # entries larger than one write buffer
    d = C.data_spec(r, kind, shape)
    env = {}
    if par and r.random() < 0.5:
        env['pyanen_tqdm_workers'] = r.choice([2, 3])
        env['pyanen_tqdm_chunksize'] = r.choice([1, 2])
    if kind == 'hurdle' and r.random() < 0.4:
        env['pyanen_integrate_with_less_memory'] = 'True'
        if r.random() < 0.5:
            env['pyanen_integrate_wdir'] = '~/'
    kw = {'working_directory': wd, 'start_from_scratch': False}
    if r.random() < 0.6:
        kw['avg_axis'] = C.axes(r, shape)
    if boot and r.random() < 0.25:
        kw['boot_samples'] = r.choice([3, 7])
        env['pyanen_boot_repeats'] = 5
    if kind in ('gauss', 'gamma') and r.random() < 0.3:
        kw['truncated'] = True
    if kind == 'hurdle':
        kw['n_approx_bins'] = r.choice([2, 3, 4])
        if r.random() < 0.4:
            kw['integration_range'] = {'$t': r.choice([[0.2, 3.0], [0.0, 6.0], [1, 4]])}
    calls = []
    rnd = rand and kind != 'det' and r.random() < rand
    if rnd:
        # randomly drawn intermediates: sampled members, randomised ranks and PIT values
        kw.pop('boot_samples', None)
        d['rand'] = True
        if kind in ('gauss', 'gamma'):
            kw['n_sample_members'] = r.choice([2, 3])
        elif kind == 'ens':
            d['ties'] = r.choice([1, 2, 3])
        else:
            d['zeros'] = 0.5
    for _ in range(r.randint(1, nmax)):
        m = r.choice(SAVED[kind] + MORE.get(kind, []))
        if rnd and r.random() < 0.6:
            m = r.choice({'ens': ['rank_hist'], 'hurdle': ['pit', 'rank_hist']}.get(kind, ['prob_to_ens', 'prob_to_ens', 'spread', 'rank_hist']))
        if m == 'crps' and kw.get('truncated') and kind == 'gamma':
            m = 'cdf'
        calls.append(C.call(r, 'v', m))
        if m in ('cdf', 'brier') and r.random() < 0.15:
            # one threshold per cell
            calls[-1]['kw'] = {k: {'$u': r.randrange(1 << 20), 'shape': shape} for k in calls[-1]['kw']}
    for j, c in enumerate(calls):
        c['sid'] = j
    if r.random() < 0.3:
        calls.append(dict(calls[0]))
    return d, env, kw, calls


FS_CLS = ['fs.write', 'fs.write', 'fs.open_w', 'fs.rename', 'fs.close', 'fs.stat', 'fs.mkdir', 'fs.remove', 'fs.open_r', 'fs.read', 'fs']
KILL_CLS = FS_CLS + ['any', 'any', 'task', 'm:any', 'w:any']


def fault(r, kill=0.6):
    if r.random() < kill:
        return {'cls': r.choice(KILL_CLS), 'pos': round(r.random(), 3), 'kind': 'crash', 'frac': r.choice([0.0, 0.2, 0.5, 0.8, 1.0])}
    if r.random() < 0.15:
        return {'cls': 'task', 'pos': round(r.random(), 3), 'kind': r.choice(['die', 'die_after', 'exc'])}
    return {'cls': r.choice(FS_CLS), 'pos': round(r.random(), 3), 'kind': r.choice(['enospc', 'enospc', 'eio', 'eacces']),
            'frac': r.choice([0.0, 0.2, 0.5, 0.8, 1.0])}


def resolve(faults, counters):
    """Turn relative positions into occurrence numbers of what the fault-free run reached."""
    out = []
    for f in faults:
        n = counters.get(f['cls'], 0)
        if 'n' in f:
            out.append(f)
        elif n:
            out.append(dict(f, n=1 + int(f['pos'] * n * 0.9999)))
    return out


def gen(r, i, tier):
    d, env, kw, calls = workload(r, rand=0.2)
    ops = [{'op': 'new', 'v': 'v', 'data': 'd', 'kw': kw}] + calls
    incs = []
    for k in range(r.choice([1, 1, 2, 3])):
        incs.append({'faults': [fault(r) for _ in range(r.choice([1, 1, 1, 2]))], 'first': r.randrange(len(calls)) if k else 0})
    return {'seed': r.randrange(1 << 30), 'data': {'d': d, 'p': dict(d, seed=d['seed'] ^ 0x5a5a5a)}, 'env': env, 'ops': ops, 'incs': incs,
            'sched': C.sched(r), 'fsched': C.sched(r), 'short': r.random() < 0.4, 'start_method': r.choice(['fork', 'spawn'])}


def unsaved(ops):
    out = []
    for o in ops:
        if o['op'] == 'new':
            o = dict(o, kw={k: v for k, v in o['kw'].items() if k not in ('working_directory', 'start_from_scratch')})
        out.append(o)
    return out


def expected(plan, ops, env, res, inc=90):
    with C.Scratch() as root:
        e = proc.run(root, plan, C.exec_ops(plan, unsaved(ops)), inc=inc,
                     env={k: v for k, v in env.items() if k not in ('pyanen_tqdm_workers',)})
    res.absorb(e)
    return C.outs(e)


def is_random(plan, op):
    d = plan['data']['d']
    if not d.get('rand') or op['op'] != 'call':
        return False
    return op['m'] in {'ens': ('rank_hist',), 'hurdle': ('pit', 'rank_hist')}.get(d['kind'], ('prob_to_ens', 'spread', 'rank_hist'))


def check_random(res, op, y, e, seen, where):
    """A randomly drawn value that was returned was saved: it is the same on every later call."""
    if y[0] != 'ok':
        return
    if e[0] != 'ok' or np.shape(y[1]) != np.shape(e[1]):
        res.bad('wrong-value', '%s: %s has shape %s instead of %s' % (where, desc(op), np.shape(y[1]), np.shape(e[1]) if e[0] == 'ok' else e[1:]))
    elif op['m'] in seen:
        res.hit('random-repeat')
        dd = O.same(y[1], seen[op['m']])
        if dd:
            res.bad('lost', '%s: randomly drawn %s had been returned (and saved) before, now it is another: %s' % (where, op['m'], dd))
    else:
        seen[op['m']] = y[1]


def tol(op):
    return (1e-7, 1e-8) if op.get('m') in ('variance', 'binned_spread_skill') else (1e-8, 1e-9)


def run(plan):
    res = C.Res()
    ops, env = plan['ops'], plan['env']
    exp = expected(plan, ops, env, res)
    if any(e[0] == 'exc' for e, o in zip(exp, ops) if o['op'] == 'new'):
        return res
    acked = set()
    seen = {}
    fired = 0
    with C.Scratch() as root:
        for k, inc in enumerate(plan['incs']):
            f = min(inc.get('first', 0), len(ops) - 1)
            idx = [0] + [1 + (j + f) % (len(ops) - 1) for j in range(len(ops) - 1)] if len(ops) > 1 else [0]
            seq = [dict(ops[j], sid=ops[j].get('sid', j)) for j in idx]
            with C.Scratch('dry') as dry:
                os.rmdir(dry)
                C.copytree(root, dry)
                dr = proc.run(dry, plan, C.exec_ops(plan, seq), inc=k, env=env)
            if dr.how == 'end':
                fl = resolve(inc['faults'], dr.info['counters'])
            else:
                fl = []
            out = proc.run(root, plan, C.exec_ops(plan, seq), inc=k, faults=fl, env=env)
            res.absorb(out)
            fired += len(out.info.get('fired') or ())
            prior = len(out.info.get('fired') or ())
            for r in out.results:
                i, y, _, ff = r
                j = idx[i]
                if y[0] == 'ok' and ops[j]['op'] == 'call':
                    if is_random(plan, ops[j]):
                        check_random(res, ops[j], y, exp[j], seen, 'incarnation %d' % k)
                    elif exp[j][0] != 'ok' or O.same(y[1], exp[j][1], *tol(ops[j])):
                        res.bad('wrong-value', 'incarnation %d: %s returned a wrong value: %s' % (
                            k, desc(ops[j]), O.same_outcome(y, exp[j], *tol(ops[j]))))
                    acked.add(j)
                elif y[0] == 'exc' and exp[j][0] == 'ok' and not ff:
                    res.bad('failed', 'incarnation %d: %s raised %s: %s although no fault hit it (faults %s)' % (k, desc(ops[j]), y[1], y[2], fl))
            if res.violations:
                return res
        # a later run on other data must be served what was returned before
        if acked:
            with C.Scratch('poi') as poi:
                os.rmdir(poi)
                C.copytree(root, poi)
                js = sorted(j for j in acked if ops[j]['m'] not in ('corr', 'brier_decomp') and
                            not any('$u' in str(x) for x in ops[j].get('kw', {}).values()))     # these are not saved themselves
                seq = [dict(ops[0], data='p')] + [dict(ops[j], sid=ops[j].get('sid', j)) for j in js]
                out = proc.run(poi, plan, C.exec_ops(plan, seq), inc=50, env=env, alt=C.other(plan, 1))
                res.absorb(out)
                for j, y in zip(js, C.outs(out)[1:]):
                    if is_random(plan, ops[j]):
                        e = ('ok', seen.get(ops[j]['m']))
                    else:
                        e = exp[j]
                    dd = O.same_outcome(y, e, *tol(ops[j]))
                    if dd:
                        res.bad('lost', '%s had returned before the crash but is not served from the saved data: %s' % (desc(ops[j]), dd))
        # a later run on the same data gets correct values and never fails
        seq = [dict(ops[j], sid=ops[j].get('sid', j)) for j in range(len(ops))]
        out = proc.run(root, plan, C.exec_ops(plan, seq), inc=60, env=env, alt=C.other(plan, 2))
        res.absorb(out)
        for j, y in enumerate(C.outs(out)):
            if ops[j]['op'] == 'new' and y[0] == 'exc':
                res.bad('restart', 'constructing on the surviving directory raised %s: %s' % y[1:])
            if ops[j]['op'] == 'call' and is_random(plan, ops[j]) and y[0] == exp[j][0]:
                check_random(res, ops[j], y, exp[j], seen, 'after restart')
            elif ops[j]['op'] == 'call':
                dd = O.same_outcome(y, exp[j], *tol(ops[j]))
                if dd:
                    res.bad('restart', 'after restart %s: %s' % (desc(ops[j]), dd))
        res.values(C.outs(out))
    res.hit('faults-fired', fired)
    res.hit('acked', len(acked))
    res.nontrivial = fired > 0
    return res


def desc(op):
    return '%s %s' % (op['m'], op.get('kw') or '') if op['op'] == 'call' else op['op']


def shrink(plan):
    import copy
    if len(plan['incs']) > 1:
        for i in range(len(plan['incs'])):
            q = copy.deepcopy(plan)
            del q['incs'][i]
            yield q
