"""Workload shared by C06 and C12: metric and integration calls hit by one or more faults."""
import hashlib
import os
import random

import numpy as np

from sim import ops as O
from sim import proc, world
from . import c03, common as C

COMPONENTS = c03.COMPONENTS

READ_CLS = ['fs.open_r', 'fs.read']
WRITE_CLS = ['fs.open_w', 'fs.write', 'fs.rename', 'fs.mkdir', 'fs.close']
WAIT_CLS = ['pool.wait', 'ray.wait', 'ray.submit', 'ray.put', 'ray.init']


def fault(r, single):
    z = r.random()
    pos = round(r.random(), 3)
    if z < 0.35:
        return {'cls': 'task', 'pos': pos, 'kind': r.choice(['exc', 'die', 'die_after'])}
    if z < 0.5:
        return {'cls': r.choice(WAIT_CLS + ['fs.write', 'fs.open_w', 'fs.rename', 'fs.open_r']), 'pos': pos, 'kind': 'intr'}
    if z < 0.6:
        return {'cls': r.choice(['ray.init', 'ray.put', 'ray.init']), 'pos': pos, 'kind': 'fail'}
    c = WRITE_CLS + READ_CLS + ['fs.remove', 'fs.remove' if single else 'fs']
    return {'cls': r.choice(c), 'pos': pos, 'kind': r.choice(['enospc', 'eio', 'eacces']), 'frac': r.choice([0.0, 0.3, 0.7, 1.0])}


def gen(r, single=False):
    kind = r.choice(['hurdle', 'hurdle', 'hurdle', 'ens', 'gauss', 'gamma', 'det'])
    d, env, kw, calls = c03.workload(r, kinds=(kind,), nmax=3, par=False, rand=0.15)
    env['pyanen_tqdm_workers'] = r.choice([1, 2, 2, 3, 4])
    env.setdefault('pyanen_tqdm_chunksize', r.choice([1, 2]))
    if r.random() < 0.5:
        env['pyanen_tqdm_disable'] = r.choice(['False', '1', 'no'])
    if r.random() < 0.3:
        env['pyanen_tqdm_leave'] = 'True'
    if r.random() < 0.4:
        kw.pop('working_directory')
        kw.pop('start_from_scratch')
    elif r.random() < 0.4:
        kw['start_from_scratch'] = True
    if kind == 'hurdle' and r.random() < 0.5:
        env['pyanen_integrate_with_less_memory'] = 'True'
    ops = [{'op': 'new', 'v': 'v', 'data': 'd', 'kw': kw}] + calls
    if kind != 'det' and r.random() < (0.5 if kind == 'hurdle' else 0.3):
        k2 = {'nbins': r.choice([2, 3, 5])}
        if r.random() < 0.5:
            k2['less_memory'] = True
        if r.random() < 0.4:
            k2['workers'] = r.choice([1, 2, 3])
        if r.random() < 0.5:
            k2['integration_range'] = {'$t': r.choice([[0.2, 3.0], [0.0, 6.0], [1, 4]])}
        obj = {'obj': 'i0'} if r.random() < 0.5 else {}
        for _ in range(r.choice([1, 2, 2])):
            ops.insert(r.randint(1, len(ops)), dict({'op': 'integ', 'v': 'v', 'm': r.choice(['crps', 'mean', 'variance']), 'kw': k2}, **obj))
    # repeat some of the calls after the fault
    ops += [dict(o) for o in ops[1:] if r.random() < 0.6]
    if r.random() < 0.3:
        ops.insert(r.randint(2, len(ops)), dict(ops[0]))
    if r.random() < 0.3:
        for _ in range(r.choice([1, 2])):
            k = r.choice(['pyanen_tqdm_disable', 'pyanen_tqdm_disable', 'pyanen_tqdm_leave', 'pyanen_tqdm_workers', 'pyanen_integrate_with_less_memory'])
            ops.insert(r.randint(1, len(ops)), {'op': 'env', 'key': k, 'val': r.choice([1, 2, 3]) if k.endswith('workers') else r.choice(['True', 'False'])})
    if r.random() < 0.2:
        ops.insert(r.randint(0, 2), {'op': 'ray_init', 'cpus': r.choice([1, 2, 4])})
    direct = not single and r.random() < 0.08
    if direct:
        # one short serial integration, hit at any line
        env['pyanen_tqdm_workers'] = 1
        ops = [ops[0], {'op': 'integ', 'v': 'v', 'm': r.choice(['crps', 'mean', 'variance']),
                        'kw': {'nbins': r.choice([2, 3]), 'integration_range': {'$t': r.choice([[0.2, 3.0], [0.0, 6.0], [1, 4]])}, 'less_memory': r.random() < 0.3}}]
        ops.append(dict(ops[1]))
    for j, o in enumerate(ops):
        o['sid'] = j
    faults = [fault(r, single) for _ in range(1 if single else r.choice([1, 1, 2]))]
    mem = direct or not single and r.random() < 0.25
    if mem:
        # any line of the code under test: an allocation fails there, or the user interrupts the main process
        faults[0] = {'cls': r.choice(['mem', 'w:mem', 'w:mem', 'm:mem']), 'pos': round(r.random(), 3), 'kind': 'alloc'}
        if r.random() < 0.45 or direct:
            faults[0].update(cls='m:mem', kind=r.choice(['intr', 'intr', 'alloc']) if direct else 'intr')
    return {'mem': mem, 'seed': r.randrange(1 << 30), 'data': {'d': d}, 'env': env, 'ops': ops, 'faults': faults, 'sched': C.sched(r), 'fsched': C.sched(r),
            'short': r.random() < 0.3, 'start_method': r.choice(['fork', 'spawn'])}


def each(ctx, w, i, op, out, before):
    with world.off():
        now = (O.process_state(), os.getcwd(), sorted(proc.tree(w.root)), id(w.ray) if w.ray else None)
        return now if out is None else (before, now)


def generator(ctx, w, i, op, out, before):
    """The state of the global random generators after the call."""
    if out is not None:
        st = np.random.get_state()
        return hashlib.md5(repr((st[0], st[1].tobytes(), st[2:], random.getstate())).encode()).hexdigest()


def plain(ops):
    out = []
    for o in ops:
        if o['op'] == 'env' and o['key'] == 'pyanen_integrate_with_less_memory':
            o = dict(o, val='False')
        if o['op'] == 'integ':
            o = dict(o, kw={k: v for k, v in o['kw'].items() if k != 'less_memory'})
        out.append(o)
    return out


def execute(plan, res, watch):
    """(expected outcomes, fault-free run, faulted run)"""
    ops, env = plan['ops'], plan['env']
    aside = [o['op'] == 'ray_init' or o['op'] == 'env' and o['key'] == 'pyanen_tqdm_workers' for o in ops]
    it = iter(c03.expected(plan, [o for o, x in zip(ops, aside) if not x], env, res))
    exp = [('ok', None) if x else next(it) for x in aside]
    hook = each if watch else generator
    with C.Scratch('dry') as root:
        dry = proc.run(root, plan, C.exec_ops(plan, ops, each=hook), inc=0, env=env)
    res.absorb(dry)
    files = set()
    if watch:
        # which files are saved data: those the same calls leave under other entropy and without memory mapping
        with C.Scratch('dry') as root:
            ref = proc.run(root, plan, C.exec_ops(plan, plain(ops), each=hook), inc=1,
                           env={k: v for k, v in env.items() if k != 'pyanen_integrate_with_less_memory'})
        res.absorb(ref)
        for r in ref.results:
            files.update(r[2][1][2])
    fl = c03.resolve(plan['faults'], dry.info.get('counters', {}))
    with C.Scratch() as root:
        out = proc.run(root, plan, C.exec_ops(plan, ops, each=hook), inc=0, faults=fl, env=env)
    res.absorb(out)
    res.nontrivial = bool(out.info.get('fired'))
    res.hit('faults-fired', len(out.info.get('fired') or ()))
    return exp, dry, files, out, fl
