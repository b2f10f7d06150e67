"""C15: a verifier handed to another process behaves there as it does here."""
import os

from sim import ops as O
from sim import proc, world
from . import c03, c10, common as C

ID = 'C15'
TITLE = 'A verifier can be handed to another process at any point of its life'
LEVEL = 'exploration'
RULE = ('a case is a history of construct, setter, metric, hand-over (pickle to another simulated process, possibly with another hash seed; a pool worker; '
        'a copy) operations over one to three process incarnations; every metric is compared with a fresh verifier built with the settings a small model '
        'says are in force, and the whole scratch tree before and after every hand-over; non-trivial when a metric is evaluated on a verifier that was '
        'handed over; distinct by event-log digest')
RUNS = {'quick': 2400, 'thorough': 25000}
COMPONENTS = {'real': ['PyAnEn (all of it)', 'pickle, cloudpickle, copy'], 'stub': ['process pools', 'ray', 'file operations pass through a seam', 'clock/entropy']}
ASSUMPTIONS = ['after a setter raised, that verifier is not judged until it is built anew', 'the receiving process has the same process-wide settings']


def gen(r, i, tier):
    kind = r.choice(['det', 'ens', 'ens', 'gauss', 'gamma', 'hurdle', 'hurdle'])
    d = C.data_spec(r, kind, C.pick_shape(r, 0.0, mincells=3) if r.random() < 0.95 else r.choice([[600], [30, 40], [3, 7, 50]]))
    if kind == 'ens' and r.random() < 0.2:
        d['members'] = r.choice([21, 40, 101])
    env = {'pyanen_boot_repeats': 4}
    if r.random() < 0.15:
        d.update(nan=0.15, nan_f=r.random() < 0.5)
        env['pyanen_skip_nan'] = 'True'
    if r.random() < 0.3:
        env['pyanen_tqdm_workers'] = r.choice([2, 3])
    if kind == 'hurdle' and r.random() < 0.3:
        env['pyanen_integrate_with_less_memory'] = 'True'
    kw = {}
    if kind == 'hurdle':
        kw['n_approx_bins'] = r.choice([2, 3])
        if r.random() < 0.4:
            kw['integration_range'] = {'$t': r.choice([[0.2, 3.0], [0.0, 6.0], [1, 4]])}
    if r.random() < 0.5:
        kw['avg_axis'] = C.axes(r, d['shape'])
    if r.random() < 0.15:
        kw['boot_samples'] = r.choice([3, 6])
    if kind in ('gauss', 'gamma') and r.random() < 0.5:
        kw['n_sample_members'] = r.choice([2, 4])
    if kind == 'ens' and r.random() < 0.5:
        kw['ensemble_collapse_func'] = {'$f': r.choice(['median', 'max'])}
    save = r.random() < 0.6
    if save:
        kw['working_directory'] = r.choice(['wd', '~/wd', './wd'])
        kw['start_from_scratch'] = r.random() < 0.5
    pool = list(c10.DETERMINISTIC[kind])
    fav = [C.call(r, 'v', m) for m in r.sample(pool, min(len(pool), 2))]
    if save and kw.get('n_sample_members'):
        fav.append({'op': 'call', 'v': 'v', 'm': r.choice(['prob_to_ens', 'prob_to_ens', 'spread'] if 'boot_samples' not in kw else ['prob_to_ens']), 'kw': {}})
    incs = []
    live = []
    for k in range(r.choice([1, 2, 2, 3])):
        ops = []
        if k == 0:
            ops.append({'op': 'new', 'v': 'v', 'data': 'd', 'kw': kw})
            live = ['v']
        else:
            live = ['v']
            ops.append({'op': 'recv', 'v': 'v', 'box': 'b%d' % (k - 1)})
        for _ in range(r.randint(1, 5)):
            v = r.choice(live)
            z = r.random()
            if z < 0.2 and not save:
                ops.append(dict(c10.setter(r, kind, d), v=v))
            elif z < 0.26 and save:
                ops.append({'op': 'set', 'v': v, 'm': 'set_avg_axis', 'a': [C.axes(r, d['shape'])]})
            elif z < 0.36:
                ops.append({'op': 'copy', 'v': 'v%d' % len(live), 'from': v, 'deep': r.random() < 0.7})
                live.append('v%d' % len(live))
            elif z < 0.46:
                ops.append({'op': 'ship', 'v': v, 'box': 'x', 'cloud': r.random() < 0.5})
                ops.append({'op': 'recv', 'v': v, 'box': 'x'})
            else:
                c = dict(r.choice(fav), v=v)
                if r.random() < 0.3 and c['m'] not in ('prob_to_ens', 'spread'):
                    c.update(op='pcall', n=r.choice([1, 2]))
                ops.append(c)
        ops.append({'op': 'ship', 'v': r.choice(live), 'box': 'b%d' % k, 'cloud': r.random() < 0.5})
        incs.append({'ops': ops, 'faults': []})
    incs.append({'ops': [{'op': 'recv', 'v': 'v', 'box': 'b%d' % (len(incs) - 1)}] + [dict(c) for c in fav], 'faults': []})
    if save and r.random() < 0.15:
        # the directory goes away on the way
        incs[-1]['ops'] += [{'op': 'ship', 'v': 'v', 'box': 'z', 'cloud': False}, {'op': 'wipe', 'v': 'v'}, {'op': 'recv', 'v': 'v', 'box': 'z'},
                            {'op': 'copy', 'v': 'v9', 'from': 'v', 'deep': True}]
    for inc in incs:
        for j, o in enumerate(inc['ops']):
            o['sid'] = j
    return {'seed': r.randrange(1 << 30), 'data': {'d': d}, 'env': env, 'incs': incs, 'sched': C.sched(r), 'fsched': [], 'start_method': r.choice(['fork', 'spawn'])}


def files(root):
    return {p: v for p, v in proc.tree(root).items() if not p.startswith('box')}


def each(ctx, w, i, op, out, before):
    with world.off():
        if out is None:
            return files(w.root)
        now = files(w.root)
        return sorted(p for p in before if now.get(p) != before[p]), sorted(p for p in now if p not in before)


def run(plan):
    res = C.Res()
    env = plan['env']
    memo, boxes = {}, {}
    drawn = {}
    done = set()
    with C.Scratch() as root:
        os.mkdir(os.path.join(root, 'box'))
        for k, inc in enumerate(plan['incs']):
            ops = inc['ops']
            out = proc.run(root, plan, C.exec_ops(plan, ops, each=each), inc=k, env=env, alt=C.other(plan, k))
            res.absorb(out)
            res.values(C.outs(out))
            for e in out.info.get('escapes') or ():
                res.bad('escape', e)
            state, moved = {}, set()
            for i, y, ex, _ in out.results:
                op = ops[i]
                v = op.get('v')
                gone, made = ex
                if y[0] == 'skip':
                    continue
                what = 'process %d, op %d %s' % (k, i, op['op'] if op['op'] != 'call' else c03.desc(op))
                if op['op'] == 'wipe':
                    continue
                if op['op'] == 'new':
                    if y[0] == 'ok':
                        state[v] = dict(op['kw'])
                    continue
                if op['op'] == 'set' and state.get(v, {}).get('start_from_scratch', True):
                    drawn, done = {}, set()               # a setter of such a verifier starts from scratch again
                elif gone:
                    res.bad('deleted', '%s deleted or altered %s' % (what, gone[:3]))
                if op['op'] in ('ship', 'recv', 'copy'):
                    if y[0] == 'exc':
                        if op['op'] == 'ship' and v not in state or op['op'] == 'copy' and op['from'] not in state:
                            continue
                        res.bad('failed', '%s raised %s: %s' % (what, y[1], y[2]))
                        continue
                    if made:
                        res.bad('side-effect', '%s created %s' % (what, made[:3]))
                    if op['op'] == 'ship':
                        boxes[op['box']] = (None if v not in state else dict(state[v]))
                    elif op['op'] == 'recv':
                        moved.add(v)
                        state.pop(v, None)
                        if boxes.get(op['box']) is not None:
                            state[v] = dict(boxes[op['box']])
                    else:
                        moved.add(v)
                        state.pop(v, None)
                        if op['from'] in state:
                            state[v] = dict(state[op['from']])
                    continue
                if v not in state:
                    continue
                if op['op'] == 'set':
                    if y[0] == 'exc':
                        state.pop(v)
                    else:
                        state[v] = c10.model(state[v], op)
                    continue
                res.nontrivial = res.nontrivial or v in moved or op['op'] == 'pcall'
                if y[0] == 'ok' and 'working_directory' in state[v]:
                    key = C.jhash([op['m'], op.get('kw'), state[v].get('avg_axis')])
                    if made and key in done:
                        res.bad('not-reused', '%s: saved data of the same call were there, but %s is created' % (what, made[:3]))
                    done.add(key)
                if op['m'] in ('prob_to_ens', 'spread'):
                    if state[v].get('n_sample_members') is not None and 'working_directory' in state[v]:
                        if y[0] != 'ok':
                            if c10.fresh(plan, ('d', state[v]), op, env, res, memo)[0] == 'ok':
                                res.bad('failed', '%s raised %s: %s' % (what, y[1], y[2]))
                            continue
                        key = op['m'] + C.jhash(state[v].get('avg_axis') if op['m'] == 'spread' else None)
                        if key in drawn and O.same(drawn[key], y[1]):
                            res.bad('redrawn', '%s: the saved members are not used after the hand-over: %s' % (what, O.same(drawn[key], y[1])))
                        drawn.setdefault(key, y[1])
                        continue
                    if op['m'] == 'prob_to_ens' or plan['data']['d']['kind'] != 'ens':
                        continue
                if op['op'] == 'pcall' and state[v].get('boot_samples') is not None:
                    continue                              # drawn by the worker's own generator
                ref = c10.fresh(plan, ('d', state[v]), dict(op, op='call'), env, res, memo)
                dd = O.same_outcome(y, ref, *c03.tol(op))
                if dd:
                    res.bad('differs', '%s on a verifier %s: %s (settings %s)' % (what, 'handed over' if v in moved or op['op'] == 'pcall' else 'built here', dd, state[v]))
            if res.violations:
                break
    return res


def shrink(plan):
    import copy
    if len(plan['incs']) > 1:
        q = copy.deepcopy(plan)
        q['incs'].pop()
        yield q
