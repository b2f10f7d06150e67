"""C07: concurrent runs sharing directories."""
import copy
import os

from sim import ops as O
from sim import proc
from . import c03, common as C

ID = 'C07'
TITLE = 'Concurrent runs sharing directories do not disturb each other'
LEVEL = 'exploration'
RULE = ('a case is two to four simulated processes that share a working directory (reusing saved data) or an integration directory, interleaved at every '
        'file operation by a seeded scheduler, some of them killed at a step; every value is compared with the process running alone; non-trivial when '
        'two processes touched the same path; distinct by event-log digest')
RUNS = {'quick': 2000, 'thorough': 30000}
COMPONENTS = c03.COMPONENTS
ASSUMPTIONS = ['processes sharing a working directory evaluate the same data and all were told not to start from scratch',
               'the interleaving point is the file operation; memory of different processes is not shared']


def gen(r, i, tier):
    mode = r.choice(['wd', 'wd', 'wd', 'integ', 'both'])
    kinds = ('hurdle',) if mode != 'wd' else ('det', 'ens', 'gauss', 'gamma', 'hurdle')
    d, env, kw, calls = c03.workload(r, kinds=kinds, nmax=4, boot=False, par=r.random() < 0.3, wd=r.choice(['wd', 'wd', 'a/b/wd', '~/wd']))
    n = r.choice([2, 2, 2, 3, 4])
    procs = []
    if mode != 'wd':
        env['pyanen_integrate_with_less_memory'] = 'True'
        if r.random() < 0.7 or mode == 'integ':
            env['pyanen_integrate_wdir'] = '~/'
        else:
            env.pop('pyanen_integrate_wdir', None)
    data = {'d': d}
    for p in range(n):
        name = 'd'
        k = dict(kw)
        if mode == 'integ':
            name = 'd%d' % p
            data[name] = dict(d, seed=d['seed'] + p)
            if r.random() < 0.2:
                data[name] = dict(data[name], shape=C.pick_shape(r, 0.0, mincells=4))
                k.pop('avg_axis', None)
            k.pop('working_directory')
            k.pop('start_from_scratch')
            cs = [C.call(r, 'v', r.choice(['crps', 'variance', 'f_determ', 'error'])) for _ in range(r.randint(1, 2))]
        else:
            cs = [dict(c) for c in calls]
            if r.random() < 0.5:
                r.shuffle(cs)
            if r.random() < 0.3:
                cs = cs[:1 + r.randrange(len(cs))]
        if mode != 'wd' and r.random() < 0.5:
            cs.insert(r.randint(0, len(cs)), {'op': 'integ', 'v': 'v', 'm': r.choice(['crps', 'mean', 'variance']),
                                              'kw': {'nbins': r.choice([2, 3]), 'less_memory': True, 'workers': r.choice([1, 2])}})
        ops = [{'op': 'new', 'v': 'v', 'data': name, 'kw': k}] + cs
        if r.random() < 0.15:
            ops.append(dict(ops[0]))
        for j, o in enumerate(ops):
            o['sid'] = j
        procs.append(ops)
    faults = {}
    if r.random() < 0.4:
        for p in r.sample(range(n), r.choice([1, 1, min(2, n - 1)])):
            f = c03.fault(r, kill=1.0)
            faults[str(p)] = [f]
    warm = mode != 'integ' and r.random() < 0.2
    return {'samepid': r.random() < 0.25, 'seed': r.randrange(1 << 30), 'data': data, 'env': env, 'procs': procs, 'faults': faults, 'sched': C.sched(r), 'fsched': C.sched(r),
            'psched': [r.randrange(1 << 16) for _ in range(r.choice([7, 29, 101]))], 'burst': r.choice([0, 0, 1, 3, 10]), 'warm': warm,
            'mkroot': r.random() < 0.5, 'short': r.random() < 0.3, 'start_method': r.choice(['fork', 'spawn'])}


def run(plan):
    res = C.Res()
    env, procs = plan['env'], plan['procs']
    exp = [c03.expected(plan, ops, env, res, inc=90 + p) for p, ops in enumerate(procs)]
    bodies = [C.exec_ops(plan, ops) for ops in procs]

    def prep(root):
        for d in ('cwd', 'home', 'tmp'):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        if plan['warm']:
            o = proc.run(root, plan, C.exec_ops(plan, procs[0][:2]), inc=80, env=env)
            res.absorb(o)
    fl = {}
    if plan['faults']:
        with C.Scratch('dry') as root:
            prep(root)
            dry, _ = proc.run_multi(root, plan, bodies, env=env)
        for p, f in plan['faults'].items():
            if int(p) < len(procs):
                fl[int(p)] = c03.resolve(f, dry[int(p)].info.get('counters', {}))
    with C.Scratch() as root:
        prep(root)
        outs, trace = proc.run_multi(root, plan, bodies, faults=fl, env=env)
        seen = {}
        for p, o in enumerate(outs):
            res.absorb(o)
            for l in C.fs_events(o.info.get('log') or ()):
                seen.setdefault(l.split()[2], set()).add(p)
            done = 0
            for i, y, _, ff in o.results:
                op = procs[p][i]
                done += 1
                if y[0] == 'skip' or ff:
                    continue
                dd = O.same_outcome(y, exp[p][i], *c03.tol(op))
                if op['op'] == 'new' and y[0] == 'ok':
                    dd = None
                if dd:
                    res.bad('disturbed', 'process %d of %d, op %d %s: %s (faults %s)' % (p, len(procs), i, c03.desc(op), dd, fl))
            if o.how == 'crash':
                res.hit('killed-process')
        res.hit('context-switches', sum(a != b for a, b in zip(trace, trace[1:])))
        res.nontrivial = any(len(s) > 1 for s in seen.values())
        res.dig.update(bytes(trace))
        # the directory they leave serves correct values
        for p in (0, len(procs) - 1):
            out = proc.run(root, plan, C.exec_ops(plan, procs[p]), proc=p, inc=60, env=env)
            res.absorb(out)
            for i, y, _, ff in out.results:
                op = procs[p][i]
                if op['op'] != 'new' or y[0] != 'ok':
                    dd = O.same_outcome(y, exp[p][i], *c03.tol(op))
                    if dd:
                        res.bad('left-behind', 'a later run, op %d %s: %s' % (i, c03.desc(op), dd))
            res.values(C.outs(out))
    return res


def shrink(plan):
    for i in range(len(plan['procs'])):
        if len(plan['procs']) > 2:
            q = copy.deepcopy(plan)
            del q['procs'][i]
            q['faults'] = {}
            yield q
    for i in range(len(plan['procs'])):
        for j in range(1, len(plan['procs'][i])):
            q = copy.deepcopy(plan)
            del q['procs'][i][j]
            yield q
    if plan['faults']:
        q = copy.deepcopy(plan)
        q['faults'] = {}
        yield q
