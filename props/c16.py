"""C16: seeding the global generator reproduces every result."""
import hashlib
import random

import numpy as np

from sim import ops as O
from sim import proc, world
from . import c03, common as C

ID = 'C16'
TITLE = 'Seeding the global generator reproduces every result'
LEVEL = 'exploration'
RULE = ('a case is a list of segments (seed the generator, evaluate one to three metrics, random and deterministic ones) evaluated twice: once plainly, once '
        'with other worker schedule, start method, operating-system entropy, clock, process id, hash seed, directories and other calls before and between '
        'the segments; values and generator states are compared; non-trivial when a metric advances the generator; distinct by event-log and value digest')
RUNS = {'quick': 3000, 'thorough': 30000}
COMPONENTS = {'real': ['PyAnEn (all of it)', 'numpy and scipy generators'],
              'stub': ['process pools', 'ray', 'clock, pid, entropy (differ between the two runs)', 'hash seed (second interpreter)']}
ASSUMPTIONS = ['the number of workers is the same in both runs', 'where saving is on no other calls are interspersed (what saved draws do is C04)']


def randoms(kind, boot, members):
    m = []
    if kind == 'ens':
        m += ['rank_hist', 'rank_hist']
    if kind in ('gauss', 'gamma', 'hurdle'):
        m += ['pit', 'pit']
    if kind in ('gauss', 'gamma') and members:
        m += ['prob_to_ens', 'prob_to_ens', 'spread', 'rank_hist']
    return m


def gen(r, i, tier):
    kind = r.choice(['det', 'ens', 'ens', 'gauss', 'gauss', 'gamma', 'gamma', 'hurdle'])
    shape = C.pick_shape(r, 0.05, mincells=2)
    d = C.data_spec(r, kind, shape)
    env = {'pyanen_boot_repeats': r.choice([3, 7, 30]), 'pyanen_tqdm_workers': r.choice([1, 1, 2, 3, 5]), 'pyanen_tqdm_chunksize': r.choice([1, 2]),
           'pyanen_tqdm_map_axis': -r.randint(1, len(shape))}
    if r.random() < 0.2:
        d.update(nan=0.15, nan_f=r.random() < 0.4)
        env['pyanen_skip_nan'] = 'True'
    if kind == 'ens':
        d['ties'] = r.choice([None, 2, 3])
    else:
        d['zeros'] = r.choice([None, 0.3, 0.7])
    if r.random() < 0.2:
        env['pyanen_tqdm_disable'] = 'False'
    kw = {}
    if kind == 'hurdle':
        kw['n_approx_bins'] = r.choice([2, 3])
        if r.random() < 0.4:
            kw['integration_range'] = {'$t': r.choice([[0.2, 3.0], [0.0, 6.0], [1, 4]])}
    if kind in ('gauss', 'gamma'):
        if r.random() < 0.8:
            kw['n_sample_members'] = r.choice([2, 4, 7])
        if r.random() < 0.3:
            kw['truncated'] = True
    if r.random() < 0.6:
        kw['avg_axis'] = C.axes(r, shape)
    if r.random() < 0.45:
        kw['boot_samples'] = r.choice([2, 5, 9])
    mets = [m for m in C.BASE[kind] if m not in ('rank_hist', 'pit')]
    rnd = randoms(kind, kw.get('boot_samples'), kw.get('n_sample_members'))
    if kind == 'gamma' and kw.get('truncated'):
        mets.remove('crps')

    def calls(n):
        out = []
        for _ in range(n):
            m = r.choice(rnd) if rnd and r.random() < 0.6 else r.choice(mets)
            out.append(C.call(r, 'v', m))
        return out
    segs = []
    for _ in range(r.choice([1, 2, 3])):
        segs.append({'noise': calls(r.choice([0, 1, 1, 2])), 'ops': [{'op': 'seed', 'n': r.randrange(1 << 31)}] + calls(r.randint(1, 3))})
    if len(segs) > 1 and r.random() < 0.4:
        segs[-1]['ops'] = [dict(o) for o in segs[0]['ops']]           # the same again, later in one process
    wd2 = None
    if r.random() < 0.2:
        # with saving on the history matters: no other calls, but two directories
        kw.update(working_directory=r.choice(['wd', '~/a']), start_from_scratch=r.random() < 0.5)
        wd2 = r.choice(['wd', 'some/where/else'])
        for s in segs:
            s['noise'] = []
    return {'wd2': wd2, 'seed': r.randrange(1 << 30), 'data': {'d': d}, 'env': env, 'kw': kw, 'segs': segs, 'sched': C.sched(r), 'sched2': C.sched(r), 'fsched': [],
            'start_method': r.choice(['fork', 'spawn']), 'start2': r.choice(['fork', 'spawn']), 'alt': r.random() < 0.5,
            'clock2': r.choice([0, 3, 1.2e9, 4e9])}


def state():
    s = np.random.get_state(legacy=False)
    h = hashlib.sha256(s['state']['key'].tobytes())
    h.update(repr((s['bit_generator'], s['state']['pos'], s['has_gauss'], s['gauss'])).encode())
    return h.hexdigest()[:12], hashlib.sha256(repr(random.getstate()).encode()).hexdigest()[:12]


def body(plan, ops):
    def go(w):
        ctx = O.Ctx(plan, w)
        for i, op in enumerate(ops):
            with world.off():
                a = state()
            out = O.perform(ctx, op, w)
            with world.off():
                b = state()
            w.send(('r', i, out, (a, b), []))
    return go


def is_random(op, kw):
    return kw.get('boot_samples') is not None or op['m'] in ('rank_hist', 'pit', 'prob_to_ens') or op['m'] == 'spread' and 'n_sample_members' in kw


def run(plan):
    res = C.Res()
    new = {'op': 'new', 'v': 'v', 'data': 'd', 'kw': plan['kw']}
    new2 = new if not plan.get('wd2') else dict(new, kw=dict(new['kw'], working_directory=plan['wd2']))
    a_ops, b_ops, pairs = [new], [new2], []
    for s in plan['segs']:
        b_ops += s['noise']
        for o in s['ops']:
            pairs.append((len(a_ops), len(b_ops)))
            a_ops.append(o)
            b_ops.append(o)
    with C.Scratch() as root:
        a = proc.run(root, plan, body(plan, a_ops), inc=0, env=plan['env'])
    with C.Scratch('other') as root:
        q = dict(plan, sched=plan['sched2'], clock=plan['clock2'], seed=plan['seed'] ^ 0x77777)
        b = proc.run(root, q, body(q, b_ops), inc=3, env=plan['env'], start_method=plan['start2'], alt=plan['alt'])
    res.absorb(a)
    res.absorb(b)
    res.values(C.outs(a))
    ra, rb = {x[0]: x for x in a.results}, {x[0]: x for x in b.results}
    if ra[0][1][0] != rb[0][1][0]:
        res.bad('differs', 'the verifier can be built in one run only')
    for i, x in list(ra.items()) + [(j, x) for j, x in rb.items() if j not in {p[1] for p in pairs}]:
        op = (a_ops if x is ra.get(i) else b_ops)[i]
        if op['op'] != 'call' or x[1][0] == 'skip':
            continue
        (n0, p0), (n1, p1) = x[2]
        if not is_random(op, plan['kw']) and n0 != n1:
            res.bad('advances', '%s involves no randomness but advances the global generator' % c03.desc(op))
        if n0 != n1:
            res.nontrivial = True
        if p0 != p1:
            res.bad('advances', '%s changes the state of the generator of the random module' % c03.desc(op))
    for i, j in pairs:
        op = a_ops[i]
        if op['op'] != 'call' or i not in ra or j not in rb:
            continue
        x, y = ra[i], rb[j]
        dd = O.same_outcome(x[1], y[1], 1e-10, 1e-12)
        if dd:
            res.bad('differs', 'segment value %s: the same seed gives another value under another schedule, entropy, clock, hash seed or history: %s' % (c03.desc(op), dd))
            break
        if x[1][0] == 'ok' and x[2][1][0] != y[2][1][0]:
            res.bad('differs', '%s leaves the generator in different states in the two runs' % c03.desc(op))
            break
    return res
