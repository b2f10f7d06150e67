"""C05: working-directory lifecycle."""
import os

from sim import ops as O
from sim import proc, world
from . import c03, common as C

ID = 'C05'
TITLE = 'Working-directory lifecycle: no stale reuse, no collateral deletion'
LEVEL = 'fault_enumeration'
RULE = ('a case is a directory state (absent, empty, filled by an earlier run on other data, foreign files, look-alike neighbours) and a history of '
        'construct / enable / disable / setter / metric operations over one to three process incarnations, some killed or hit by a disk error, with the '
        'whole scratch tree compared before and after every operation; non-trivial when files existed before or a fault fired; distinct by event-log digest')
RUNS = {'quick': 3300, 'thorough': 40000}
COMPONENTS = c03.COMPONENTS
# names that need to be taken as they are, and what they might be mistaken for
ODD = {'wd ': 'wd', ' wd': 'wd', 'wd$SIM_NAME': 'wd1', 'wd${SIM_NAME}': 'wd1', 'wd[12]': 'wd1', 'wd*': 'wd2', 'w?': 'wd', '%(wd)s': 'wd', '{wd}': 'wd', 'WD': 'wd', 'wd.pkl': 'wd', 'a/.wd': 'a/wd'}
ALIKE, ODD = ODD, sorted(ODD)
WDS = ['wd', 'wd/', 'a/wd', '~/wd', '~/deep/wd', './wd', 'home/x y']


def gen(r, i, tier):
    d, env, kw0, calls = c03.workload(r, nmax=3, wd='wd')
    kw0.pop('working_directory')
    kw0.pop('start_from_scratch')
    kind = d['kind']
    wd = r.choice(WDS) if r.random() < 0.85 else r.choice(ODD)
    incs = []
    if r.random() < 0.75:     # an earlier run on other data
        if kind != 'det' and r.random() < 0.05:
            # many saved entries
            th = [round(0.5 + 0.05 * j, 2) for j in range(r.choice([40, 80, 150]))]
            many = [{'op': 'call', 'v': 'v', 'm': 'cdf', 'kw': {'below': t}, 'sid': j} for j, t in enumerate(th)]
            calls = calls[:1] + [dict(r.choice(many)) for _ in range(4)] + [dict(many[-1])]
        else:
            many = [dict(c) for c in calls]
        ops = [{'op': 'new', 'v': 'v', 'data': 'p', 'kw': dict(kw0, working_directory=wd, start_from_scratch=False)}] + many
        incs.append({'ops': ops, 'faults': [c03.fault(r)] if r.random() < 0.15 else []})
    for k in range(r.choice([1, 1, 2])):
        scratch = r.random() < 0.6
        z = r.random()
        wd2 = wd if r.random() < 0.85 else r.choice(WDS)
        if z < 0.6:
            ops = [{'op': 'new', 'v': 'v', 'data': 'd', 'kw': dict(kw0, working_directory=wd2, start_from_scratch=scratch)}]
        elif z < 0.85:
            ops = [{'op': 'new', 'v': 'v', 'data': 'd', 'kw': dict(kw0)}] + ([dict(r.choice(calls))] if r.random() < 0.5 else [])
            ops.append({'op': 'set', 'v': 'v', 'm': 'enable_saving', 'a': [wd2, scratch]})
        else:
            ops = [{'op': 'new', 'v': 'v', 'data': 'd', 'kw': dict(kw0, start_from_scratch=scratch)}]
        for _ in range(r.randint(1, 5)):
            q = r.random()
            if q < 0.65:
                ops.append(dict(r.choice(calls)))
            elif q < 0.75:
                ops.append({'op': 'set', 'v': 'v', 'm': 'disable_saving'})
            elif q < 0.85:
                ops.append({'op': 'set', 'v': 'v', 'm': 'enable_saving', 'a': [r.choice([wd, wd2]), r.random() < 0.5]})
            elif q < 0.93:
                ops.append({'op': 'set', 'v': 'v', 'm': 'set_avg_axis', 'a': [C.axes(r, d['shape'])]})
            else:
                ops.append({'op': 'set', 'v': 'v', 'm': 'disable_boot'})
        if kind in ('gauss', 'gamma') and r.random() < 0.1:
            ops.insert(len(ops) - 1, {'op': 'set', 'v': 'v', 'm': 'set_truncation', 'a': [bool(kw0.get('truncated'))]})
        faults = []
        if r.random() < 0.35:
            faults = [{'cls': r.choice(['fs.remove', 'fs.rmdir', 'fs.mkdir', 'fs', 'fs.write', 'any', 'fs.rename']), 'pos': round(r.random(), 3),
                       'kind': r.choice(['crash', 'crash', 'eacces', 'eio']), 'frac': 0.5}]
        incs.append({'ops': ops, 'faults': faults})
    for inc in incs:
        for j, o in enumerate(inc['ops']):
            o.setdefault('sid', j)
    pre, links = {}, {}
    for n in ('wd.bak/keep.pkl', 'wd2/other.pkl', 'home/wd_old/x.pkl', 'home/notes.txt', 'cwd/cdf_over_None_below_1.0.pkl', 'a/readme'):
        if r.random() < 0.5:
            pre[n] = 'foreign %s' % n
    if wd in ALIKE:
        pre[ALIKE[wd] + '/keep.pkl'] = 'somebody else'
        env = dict(env, SIM_NAME='1')
    if r.random() < 0.5:
        base = {'wd': 'wd', 'wd/': 'wd', 'a/wd': 'a/wd', '~/wd': 'home/wd', '~/deep/wd': 'home/deep/wd', './wd': 'cwd/wd', 'home/x y': 'home/x y'}.get(wd, wd)
        pre[base + '/mine.txt'] = 'user file'
        if r.random() < 0.5:
            pre[base + '/sub/mine.pkl'] = 'user file in a subdirectory'
        if r.random() < 0.3:
            # the user's links to things that live elsewhere
            up = '../' * (base.count('/') + 1)
            pre['archive/deep/old.pkl'] = pre['archive/old.pkl'] = 'kept elsewhere'
            links = {base + '/more': up + 'archive', base + '/kept.pkl': up + 'archive/old.pkl', base + '/sub/far': '../' + up + 'archive/deep',
                     base + '/gone.pkl': 'nowhere'}
            links = {p: t for p, t in links.items() if r.random() < 0.6 and (p.count('/') == base.count('/') + 1 or base + '/sub/mine.pkl' in pre)}
    return {'seed': r.randrange(1 << 30), 'data': {'d': d, 'p': dict(d, seed=d['seed'] ^ 0x3c3c3c)}, 'env': env, 'incs': incs, 'pre': pre, 'links': links,
            'sched': C.sched(r), 'fsched': C.sched(r), 'start_method': 'fork'}


def realdir(root, wd):
    if wd is None:
        return None
    if wd.startswith('~'):
        return os.path.normpath(os.path.join(root, 'home', wd[2:]))
    if wd.startswith('./'):
        return os.path.normpath(os.path.join(root, 'cwd', wd))
    return os.path.normpath(os.path.join(root, wd))


STD = {'cwd', 'home', 'tmp'}


def changes(a, b):
    """Paths created, deleted, altered between two tree snapshots."""
    cr = [p for p in b if p not in a and p not in STD]
    de = [p for p in a if p not in b]
    al = [p for p in a if p in b and a[p] != b[p]]
    return cr, de, al


def under(p, d):
    return p == d or p.startswith(d + '/')


def model(state, op):
    """Follow the verifier's saving configuration: (wd, scratch)."""
    if op['op'] == 'new':
        return op['kw'].get('working_directory'), op['kw'].get('start_from_scratch', True)
    if op.get('m') == 'enable_saving':
        return op['a'][0], op['a'][1]
    if op.get('m') == 'disable_saving':
        return None, state[1]
    return state


def run(plan):
    res = C.Res()
    env = plan['env']
    less = env.get('pyanen_integrate_with_less_memory') == 'True'
    fired = 0
    fresh_since = {}          # directory -> data sets that may be in it, None = unknown
    with C.Scratch() as root:
        for n, t in plan['pre'].items():
            p = os.path.join(root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(t)
        for n, t in plan.get('links', {}).items():
            os.makedirs(os.path.dirname(os.path.join(root, n)), exist_ok=True)
            os.symlink(t, os.path.join(root, n))
        for d in STD:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for k, inc in enumerate(plan['incs']):
            ops = inc['ops']
            exp = c03.expected(plan, [o if o.get('m') not in ('enable_saving', 'disable_saving') else {'op': 'env', 'key': 'x', 'val': '0', 'sid': 0}
                                      for o in ops], env, res, inc=70 + k)
            fl = []
            if inc['faults']:
                with C.Scratch('dry') as dry:
                    os.rmdir(dry)
                    C.copytree(root, dry)
                    dr = proc.run(dry, plan, C.exec_ops(plan, ops), inc=k, env=env)
                    fl = c03.resolve(inc['faults'], dr.info.get('counters', {}))

            def each(ctx, w, i, op, out, before):
                with world.off():
                    if out is None:
                        return proc.tree(w.root), len(w.log)
                    t0, n0 = before
                    cr, de, al = changes(t0, proc.tree(w.root))
                    return cr, de, al, [l for l in w.log[n0:] if ' fs.' in l]
            start = proc.tree(root)
            out = proc.run(root, plan, C.exec_ops(plan, ops, each=each), inc=k, faults=fl, env=env, alt=not fl and C.other(plan, k))
            res.absorb(out)
            fired += len(out.info.get('fired') or ())
            for e in out.info.get('escapes') or ():
                res.bad('escape', 'touched something outside the scratch area: %s' % e)
            state, known = (None, True), None
            bad_set = False
            confs = set()
            for i, y, ex, ff in out.results:
                op = ops[i]
                if y[0] == 'skip':
                    continue
                prev = state
                state = model(state, op)
                wd, scratch = state
                rd = None if wd is None else os.path.relpath(realdir(root, wd), root)
                if rd:
                    confs.add(rd)
                cr, de, al, fs = ex
                integ = None if not less else 'home' if env.get('pyanen_integrate_wdir') else rd or 'cwd'
                for p in cr + de + al:
                    if integ and p in cr and os.path.dirname(p) == integ and ff:
                        continue                      # scratch file of a failed integration: C12's concern
                    if rd and (under(p, rd) or (p in cr and under(rd, p) and start.get(p, 0) == 0)):
                        continue
                    res.bad('outside', 'incarnation %d: %s changed %s, which is not in its working directory %s' % (k, c03.desc(op), p, rd))
                if wd is None and not less and [l for l in fs if not ' fs.stat ' in l]:
                    res.bad('disk-used', 'incarnation %d: %s used the disk although saving is off: %s' % (k, c03.desc(op), fs[:3]))
                if not scratch and (de or al):
                    res.bad('altered', 'incarnation %d: %s deleted %s / altered %s although it was told not to start from scratch' % (
                        k, c03.desc(op), de[:3], al[:3]))
                if op['op'] in ('new',) or op.get('m') == 'enable_saving':
                    if y[0] == 'exc':
                        bad_set = bad_set or op['op'] == 'set'
                        if not ff:
                            res.bad('raised', '%s raised %s: %s' % (c03.desc(op), y[1], y[2]))
                    if rd and scratch:
                        fresh_since[rd] = 'd' if op.get('data', 'd') == 'd' else 'p'
                    elif rd and rd not in fresh_since:
                        fresh_since[rd] = '?'
                if op['op'] == 'set' and y[0] == 'exc':
                    bad_set = True                    # the failure was reported; the verifier is half configured
                if op['op'] == 'call' and not bad_set:
                    fresh = wd is None or (scratch and ops[0].get('data') == 'd')
                    if fresh and y[0] == 'ok' and O.same_outcome(y, exp[i], *c03.tol(op)):
                        res.bad('stale', 'incarnation %d: %s (%s) differs from a fresh evaluation: %s' % (
                            k, c03.desc(op), 'saving off' if wd is None else 'told to start from scratch', O.same_outcome(y, exp[i], *c03.tol(op))))
                    if y[0] == 'exc' and not ff and exp[i][0] == 'ok' and (wd is None or scratch):
                        res.bad('raised', '%s raised %s: %s' % (c03.desc(op), y[1], y[2]))
                    res.hit('calls')
            if out.how == 'crash':
                # the operation in flight: same rules, compared with the start of the incarnation
                res.hit('crashed')
                done = len(out.results)
                if done < len(ops):
                    st2 = model(state, ops[done])
                    if st2[0]:
                        confs.add(os.path.relpath(realdir(root, st2[0]), root))
                    cr, de, al = changes(start, proc.tree(root))
                    integ = [] if not less else ['home'] if env.get('pyanen_integrate_wdir') else list(confs) + ['cwd']
                    for p in cr + de + al:
                        if p in cr and os.path.dirname(p) in integ:
                            continue                  # the integration's own scratch file
                        if not any(under(p, c) or (p in cr and under(c, p)) for c in confs):
                            res.bad('outside', 'incarnation %d killed in %s: changed %s outside %s' % (k, c03.desc(ops[done]), p, confs))
            if res.violations:
                break
    res.nontrivial = fired > 0 or bool(plan['pre']) or len(plan['incs']) > 1
    return res


def shrink(plan):
    import copy
    if len(plan['incs']) > 1:
        for i in range(len(plan['incs'])):
            q = copy.deepcopy(plan)
            del q['incs'][i]
            yield q
    for p in plan['pre']:
        q = copy.deepcopy(plan)
        del q['pre'][p]
        yield q
    for p in plan.get('links', {}):
        q = copy.deepcopy(plan)
        del q['links'][p]
        yield q
