"""C10: settings always take effect; evaluation has no side effects."""
import copy
import os

import numpy as np

from sim import ops as O
from sim import proc, world
from . import c03, common as C

ID = 'C10'
TITLE = 'Settings always take effect and evaluation has no side effects'
LEVEL = 'exploration'
RULE = ('a case is a history of constructor, setter, process-setting and metric operations on one to three verifiers that share arrays, with returned '
        'arrays overwritten by the caller; every metric is compared with a fresh verifier in a fresh process built with the settings a small model says are '
        'in force, and inputs and process settings are compared before and after every operation; non-trivial when a setter precedes a metric; distinct '
        'by event-log digest and value digest')
RUNS = {'quick': 2500, 'thorough': 25000}
COMPONENTS = {'real': ['PyAnEn (all of it)'], 'stub': ['process pools', 'ray', 'file operations pass through a seam', 'clock/entropy']}
ASSUMPTIONS = ['after a setter raised, that verifier is not judged until it is built anew',
               'with saving on, only start_from_scratch=True and deterministic metrics are used here (reuse is C04)']

KW = {'set_avg_axis': 'avg_axis', 'set_boot_samples': 'boot_samples', 'set_ensemble_axis': 'ensemble_axis', 'set_collapse_func': 'ensemble_collapse_func',
      'set_move_sampled_ens_axis': 'move_sampled_ens_axis', 'set_ensemble_members': 'n_sample_members', 'set_member_clip': 'clip_member_to_zero',
      'set_truncation': 'truncated', 'set_bins': 'n_approx_bins'}
DETERMINISTIC = {k: [m for m in v if m not in ('rank_hist',)] for k, v in C.BASE.items()}


def setter(r, kind, d, lambdas=False):
    c = ['set_avg_axis', 'set_avg_axis', 'set_boot_samples', 'disable_boot']
    if kind == 'ens':
        c += ['set_collapse_func', 'set_collapse_func', 'set_ensemble_axis']
    if kind in ('gauss', 'gamma'):
        c += ['set_move_sampled_ens_axis', 'set_ensemble_members', 'set_ensemble_members', 'set_member_clip', 'set_truncation']
    if kind == 'hurdle':
        c += ['set_bins', 'set_bins', 'set_integration_range']
    m = r.choice(c)
    nd = len(d['shape'])
    a = {'set_avg_axis': lambda: [C.axes(r, d['shape'])], 'set_boot_samples': lambda: [r.choice([2, 3, 5, 8, None])], 'disable_boot': lambda: [],
         'set_collapse_func': lambda: [{'$f': r.choice(['mean', 'median', 'max', 'min', 'q20', 'q80'] + (['l1', 'l2'] if lambdas else []))}],
         'set_ensemble_axis': lambda: [r.choice([0, -1, nd, -nd - 1]) if d.get('square') else r.choice([d['axis'], nd if d['axis'] == -1 else -nd - 1])],
         'set_move_sampled_ens_axis': lambda: [r.choice([-1, 0] + list(range(nd + 1)))], 'set_ensemble_members': lambda: [r.choice([2, 3, 5, None])],
         'set_member_clip': lambda: [r.choice([0.0, 1.5, 3.0, None])], 'set_truncation': lambda: [r.random() < 0.5],
         'set_bins': lambda: [r.choice([2, 3, 5, 7])], 'set_integration_range': lambda: [r.choice([0, -3, 0.5]), r.choice([9, 12.5, 30])]}[m]()
    return {'op': 'set', 'm': m, 'a': a}


ENVS = {'pyanen_skip_nan': ['True', 'False'], 'pyanen_boot_repeats': [2, 5, 9], 'pyanen_boot_confidence': [0.5, 0.8, 0.95],
        'pyanen_tqdm_workers': [1, 1, 2, 3], 'pyanen_split_crps_ensemble_along_0': ['True', 'False'], 'pyanen_tqdm_disable': ['True', 'False'],
        'pyanen_integrate_with_less_memory': ['True', 'False'], 'pyanen_tqdm_map_axis': [-1, -1, -1], 'pyanen_tqdm_chunksize': [1, 2],
        'pyanen_integrate_range_multiplier': [2, 3, 8], 'pyanen_ens_to_prob_method': ['moments', 'moments', 'kde'], 'pyanen_kde_bandwidth': [0.01, 0.5],
        'pyanen_kde_samples': [100, 300]}


def gen(r, i, tier):
    kinds = [r.choice(['det', 'ens', 'ens', 'gauss', 'gamma', 'hurdle']) for _ in range(r.choice([1, 1, 2]))]
    data, names = {}, []
    for j, kind in enumerate(kinds):
        d = C.data_spec(r, kind, C.pick_shape(r, 0.0, mincells=3))
        if kind == 'ens' and r.random() < 0.35:
            n = r.choice([2, 3, 4])
            d.update(shape=[n] * r.choice([1, 2]), members=n, square=True)
        if r.random() < 0.15:
            d.update(nan=0.15, nan_f=r.random() < 0.5)
        data['d%d' % j] = d
        names.append(('d%d' % j, kind))
    skip = any(d.get('nan') for d in data.values())
    env = {'pyanen_boot_repeats': 4}
    if skip:
        env['pyanen_skip_nan'] = 'True'
    save = r.random() < 0.2
    ops, vs = [], {}
    for k in range(r.choice([1, 2, 2, 3])):
        n, kind = r.choice(names)
        vs['v%d' % k] = (n, kind)
        kw = {}
        if kind == 'hurdle':
            kw['n_approx_bins'] = r.choice([2, 3])
        if r.random() < 0.5:
            kw['avg_axis'] = C.axes(r, data[n]['shape'])
        if r.random() < 0.2:
            kw['boot_samples'] = r.choice([3, 6])
        if kind in ('gauss', 'gamma') and r.random() < 0.5:
            kw['n_sample_members'] = r.choice([2, 4])
        if kind == 'ens' and r.random() < 0.3:
            kw['ensemble_collapse_func'] = {'$f': r.choice(['median', 'max'])}
        if save and r.random() < 0.7:
            kw['working_directory'] = 'wd%d' % k
        ops.append({'op': 'new', 'v': 'v%d' % k, 'data': n, 'kw': kw})
    body = []
    for _ in range(r.randint(3, 8)):
        v = r.choice(sorted(vs))
        n, kind = vs[v]
        z = r.random()
        if z < 0.25:
            # the same metric before and after a change
            c = C.call(r, v, r.choice(DETERMINISTIC[kind]))
            body.append(dict(c))
            for _ in range(r.choice([1, 1, 2])):
                body.append(dict(setter(r, kind, data[n], True), v=v))
            if not save and r.random() < 0.2:
                k = r.choice(sorted(ENVS))
                if not (skip and k == 'pyanen_skip_nan'):
                    body.append({'op': 'env', 'key': k, 'val': r.choice(ENVS[k])})
            body.append(dict(c))
        elif z < 0.45:
            body.append(dict(setter(r, kind, data[n], True), v=v))
        elif z < 0.9:
            pool = DETERMINISTIC[kind] if save else C.BASE[kind] + (C.SAMPLED if kind in ('gauss', 'gamma') else [])
            body.append(dict(C.call(r, v, r.choice(pool)), mutate=r.random() < 0.35))
        elif z < 0.95 and not save:
            k = r.choice(sorted(ENVS))
            if not (skip and k == 'pyanen_skip_nan'):
                body.append({'op': 'env', 'key': k, 'val': r.choice(ENVS[k])})
        elif z < 0.975:
            body.append({'op': 'set', 'v': v, 'm': 'disable_saving'})
        elif z < 0.987:
            body.append({'op': 'repr', 'v': v})
        else:
            body.append(util(r, n, kind, data[n]))
        if r.random() < 0.12:
            body.append(util(r, n, kind, data[n]))
    # end with metrics so that setters are always observed
    for v in sorted(vs):
        n, kind = vs[v]
        body.append(C.call(r, v, r.choice(DETERMINISTIC[kind])))
    ops += [o for o in body if o]
    for j, o in enumerate(ops):
        o['sid'] = j
    return {'seed': r.randrange(1 << 30), 'data': data, 'env': env, 'ops': ops, 'sched': C.sched(r), 'fsched': [], 'start_method': r.choice(['fork', 'spawn'])}


def util(r, n, kind, d):
    """A helper function called directly on the arrays of the user."""
    ax = C.axes(r, d['shape'])
    ax = ax if isinstance(ax, dict) or ax is None else {'$t': [ax]}
    f = {'$raw': [n, 'f']} if kind == 'det' else {'$raw': [n, 'sigma']} if kind in ('gauss', 'gamma', 'hurdle') else {'$raw': [n, 'o']}
    o = {'$raw': [n, 'o']}
    q = [{'op': 'util', 'mod': 'ss', 'fn': 'binned_spread_skill', 'a': [f, o, r.choice([1, 2]), ax]},
         {'op': 'util', 'mod': 'verify', 'fn': 'boot_arr', 'a': [o, ax], 'kw': {'n_samples': 3, 'repeats': 3}},
         {'op': 'util', 'mod': 'verify', 'fn': 'iou_determ', 'a': [f, o], 'kw': {'over': 1.5}},
         {'op': 'util', 'mod': 'verify', 'fn': 'binarize_obs', 'a': [o], 'kw': {'over': 1.5}}]
    if kind == 'ens' and not d.get('nan'):
        q += [{'op': 'util', 'mod': 'verify', 'fn': 'rank_histogram', 'a': [{'$raw': [n, 'f']}, o, d['axis']]},
              {'op': 'util', 'mod': 'verify', 'fn': 'ens_to_prob', 'a': [{'$raw': [n, 'f']}, d['axis']], 'kw': {'over': 2.0}}]
    if kind == 'det' and not d.get('nan'):
        q += [{'op': 'util', 'mod': 'boot', 'fn': 'corr', 'a': [f, o, ax, r.choice([None, 3]), 3, 0.9]}]
    return r.choice(q)


def arrays(data):
    out = []
    for n in sorted(data):
        d = data[n]
        out.append(d['o'])
        out += [d['f'][k] for k in sorted(d['f'])] if isinstance(d['f'], dict) else [d['f']]
    return out


def bytes_of(data):
    return [(a.shape, str(a.dtype), a.tobytes()) for a in arrays(data)] + [sorted(d['f']) if isinstance(d['f'], dict) else None for _, d in sorted(data.items())]


def scribble(v):
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size and v.dtype != object:
            v[...] = True if v.dtype == bool else 77
    elif isinstance(v, (tuple, list)):
        for x in v:
            scribble(x)
    elif hasattr(v, 'to_numpy'):
        try:
            scribble(v.values)
        except Exception:
            pass


def glob():
    return dict(O.process_state(), cwd=os.getcwd())


def body(plan, ops):
    def go(w):
        ctx = O.Ctx(plan, w)
        for i, op in enumerate(ops):
            np.random.seed((plan.get('seed', 0) * 131 + 7 * op.get('sid', i)) % (2 ** 32))
            with world.off():
                a0, g0 = bytes_of(ctx.data), glob()
            out = O.perform(ctx, op, w)
            with world.off():
                a1, g1 = bytes_of(ctx.data), glob()
            side = None if a0 == a1 else 'arrays'
            diff = {} if op['op'] == 'env' else O.state_change(g0, g1)
            if diff:
                side = 'settings ' + str(diff)[:600]
            keep = copy.deepcopy(out)
            if op.get('mutate') and out[0] == 'ok':
                scribble(out[1])
                with world.off():
                    if bytes_of(ctx.data) != a1:
                        side = 'alias'
            w.send(('r', i, keep, side, []))
    return go


def model(kw, op):
    kw = dict(kw)
    m = op['m']
    if m == 'disable_boot':
        kw['boot_samples'] = None
    elif m == 'set_integration_range':
        kw['integration_range'] = {'$t': op['a']}
    elif m in KW:
        kw[KW[m]] = op['a'][0]
    return kw


def run(plan):
    res = C.Res()
    ops = plan['ops']
    with C.Scratch() as root:
        out = proc.run(root, plan, body(plan, ops), inc=0, env=plan['env'])
    res.absorb(out)
    for e in out.info.get('escapes') or ():
        res.bad('escape', e)
    state, env, memo, dead = {}, dict(plan['env']), {}, set()
    seen_setter = set()
    for i, y, side, _ in out.results:
        op = ops[i]
        name = '%s %s' % (op.get('m') or op.get('fn') or op['op'], op.get('kw') or op.get('a') or '')
        if side == 'arrays':
            res.bad('input-modified', 'op %d %s modified the arrays it was given' % (i, name))
        elif side == 'alias':
            res.bad('alias', 'modifying the value returned by op %d %s modified the input arrays' % (i, name))
        elif side:
            res.bad('settings-changed', 'op %d %s changed process settings: %s' % (i, name, side))
        k = op['op']
        if k == 'env':
            env[op['key']] = op['val']
            continue
        if k == 'new':
            state[op['v']] = (op['data'], dict(op['kw']))
            dead.discard(op['v'])
            if y[0] == 'exc':
                dead.add(op['v'])
            continue
        if k == 'set':
            v = op['v']
            if v in dead or v not in state:
                continue
            state[v] = (state[v][0], model(state[v][1], op))
            seen_setter.add(v)
            if y[0] == 'exc':
                dead.add(v)
                ref = fresh(plan, state[v], None, env, res, memo)
                if ref[0] == 'ok':
                    res.bad('setter', 'op %d %s raised %s: %s, but a fresh verifier accepts the setting' % (i, name, y[1], y[2]))
            elif y[1] is not True:
                res.bad('setter', 'op %d %s does not return the verifier' % (i, name))
            continue
        if k == 'call':
            v = op['v']
            if v in dead or v not in state or y[0] == 'skip':
                continue
            res.nontrivial = res.nontrivial or v in seen_setter
            ref = fresh(plan, state[v], op, env, res, memo)
            dd = O.same_outcome(y, ref, *c03.tol(op))
            if dd:
                res.bad('stale', 'op %d on %s, %s: %s (fresh verifier with %s)' % (i, v, name, dd, state[v][1]))
    res.values(C.outs(out))
    return res


def fresh(plan, state, op, env, res, memo):
    data, kw = state
    kw = {k: v for k, v in kw.items() if k not in ('working_directory', 'start_from_scratch')}
    if op and op['m'] in ('spread', 'rank_hist') and 'move_sampled_ens_axis' in kw:
        kw['move_sampled_ens_axis'] = -1          # where the members are stored must not matter
    seq = [{'op': 'new', 'v': 'v', 'data': data, 'kw': kw, 'sid': 0}]
    if op:
        seq.append(dict(op, v='v', mutate=False))
    key = C.jhash([data, kw, seq[1:], env])
    if key not in memo:
        with C.Scratch() as root:
            o = proc.run(root, plan, C.exec_ops(plan, seq), inc=5, env=env)
        res.absorb(o)
        outs = C.outs(o)
        memo[key] = outs[-1] if outs[0][0] == 'ok' else outs[0]
    return memo[key]
