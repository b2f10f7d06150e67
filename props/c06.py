"""C06: a fault is reported or harmless, never turned into a wrong value."""
from sim import ops as O
from . import c03, common as C, faulty

ID = 'C06'
TITLE = 'A fault is reported or harmless, never turned into a wrong value'
LEVEL = 'fault_enumeration'
RULE = ('a case is a sequence of metric and integration calls in one process with one or two faults (task exception, worker death, disk error, cluster '
        'start failure, interrupt) placed at a step the fault-free run reaches; every outcome is compared with a fault-free serial reference; non-trivial '
        'when a fault fired; distinct by event-log digest')
RUNS = {'quick': 3300, 'thorough': 40000}
COMPONENTS = faulty.COMPONENTS


def gen(r, i, tier):
    return faulty.gen(r)


def run(plan):
    res = C.Res()
    exp, dry, files, out, fl = faulty.execute(plan, res, False)
    ops = plan['ops']
    built = True
    for tag, o in (('fault-free', dry), ('faulted', out)):
        hit = raised = False
        seen = {}
        for i, y, ex, ff in o.results:
            op = ops[i]
            hit = hit or bool(ff)
            if y[0] == 'skip' or op['op'] in ('ray_init', 'env'):
                continue
            if tag == 'faulted' and not raised and y[0] == 'ok':
                # nothing was reported so far: random results go on as without the fault
                j, yd, exd, _ = dry.results[i]
                if ex != exd and yd[0] == 'ok':
                    res.bad('generator', 'faulted run, op %d %s returned, but the global generator is not where the fault-free call leaves it (faults %s)' % (
                        i, c03.desc(op), fl))
            raised = raised or y[0] == 'exc'
            if y[0] == 'exc':
                if not ff and (exp[i][0] == 'ok'):
                    res.bad('later-failure' if hit else 'failure', '%s run, op %d %s raised %s: %s with no fault in it (faults %s)' % (
                        tag, i, c03.desc(op), y[1], y[2], fl))
                if ff:
                    res.hit('fault-reported')
                continue
            if op['op'] == 'new':
                kept = 'working_directory' in op['kw'] and not op['kw'].get('start_from_scratch')
                seen = seen if kept else {}
            if c03.is_random(plan, op):
                c03.check_random(res, op, y, exp[i], seen if kept else {}, '%s run, op %d (faults %s)' % (tag, i, fl))
            elif op['op'] in ('call', 'integ'):
                if ff:
                    res.hit('fault-harmless')
                dd = O.same_outcome(y, exp[i], *c03.tol(op))
                if dd:
                    res.bad('wrong-value', '%s run, op %d %s: %s (faults %s)' % (tag, i, c03.desc(op), dd, fl))
    res.values(C.outs(out))
    return res
