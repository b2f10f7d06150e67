"""C12: every outcome restores settings and releases resources."""
from sim import ops as O
from . import c03, common as C, faulty

ID = 'C12'
TITLE = 'Every outcome restores process settings and releases resources'
LEVEL = 'fault_enumeration'
RULE = ('a case is a sequence of metric and integration calls in one process with one fault placed at a step the fault-free run reaches; settings, '
        'working directory, file set and cluster are compared before and after every call; non-trivial when the fault fired; distinct by event-log digest')
RUNS = {'quick': 2700, 'thorough': 40000}
COMPONENTS = faulty.COMPONENTS
ASSUMPTIONS = ['where the removal of a scratch file itself fails, the file that stays is not held against the code; the clean-up is not interrupted by the user',
               'a worker killed in the middle of writing its own file cannot clean up; worker deaths are placed before or after a task']


def gen(r, i, tier):
    return faulty.gen(r, single=True)


def run(plan):
    res = C.Res()
    exp, dry, files, out, fl = faulty.execute(plan, res, True)
    ops = plan['ops']
    for tag, o in (('fault-free', dry), ('faulted', out)):
        for i, y, ex, ff in o.results:
            op = ops[i]
            if op['op'] in ('ray_init', 'env') or y[0] == 'skip':
                continue
            (s0, c0, f0, r0), (s1, c1, f1, r1) = ex
            how = 'after %s (%s)' % ('%s run, op %d %s' % (tag, i, c03.desc(op)), y[0] if y[0] == 'ok' else 'raised ' + y[1])
            diff = O.state_change(s0, s1)
            if diff:
                res.bad('settings', '%s the settings changed: %s (faults %s)' % (how, str(diff)[:600], fl))
            if c0 != c1:
                res.bad('cwd', '%s the current directory changed' % how)
            if r0 != r1:
                res.bad('cluster', '%s %s (faults %s)' % (how, 'a cluster is still running' if r0 is None else 'the cluster of the user is gone', fl))
            left = [p for p in f1 if p not in files and p not in f0]
            if left and not any(x['cls'] == 'fs.remove' for x in fl):
                res.bad('leftover', '%s a temporary file is left behind: %s (faults %s)' % (how, left[:3], fl))
            if y[0] == 'exc' and not ff and exp[i][0] == 'ok':
                res.bad('next-call', '%s although no fault hit it: %s' % (how, y[2]))
    res.values(C.outs(out))
    return res
