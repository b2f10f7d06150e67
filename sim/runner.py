"""Seeded search over plans, minimisation, replay, evidence."""
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import alt, boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALT = ('C03', 'C04', 'C05', 'C15', 'C16')          # properties whose restarts also change the hash seed
CAP = {'quick': 200.0, 'thorough': 1500.0}


def load(pid):
    return importlib.import_module('props.' + pid.lower())


def make_plan(mod, seed, i, tier):
    r = random.Random('%s/%s/%s' % (seed, mod.ID, i))
    p = mod.gen(r, i, tier)
    p = json.loads(json.dumps(p))          # plans are JSON values, here as in the replay file
    p['property'] = mod.ID
    p['origin'] = [seed, i]
    return p


def run_plan(mod, plan):
    from props import common
    from .proc import HarnessError
    try:
        return mod.run(copy.deepcopy(plan))
    except (HarnessError, OSError, MemoryError):
        raise
    except Exception:
        # the oracle could not even read what came back
        res = common.Res()
        t = traceback.format_exc().strip().splitlines()
        res.bad('malformed', 'the returned values have an unexpected form: %s (%s)' % (t[-1], t[-3].strip() if len(t) > 2 else ''))
        return res


# -- worker pool of the search itself ------------------------------------------
def _worker(mod, seed, tier, idx, step, total, deadline, wfd):
    def send(x):
        b = pickle.dumps(x)
        b = struct.pack('<Q', len(b)) + b
        while b:
            b = b[os.write(wfd, b):]
    i = idx
    first = None
    while i < total and time.monotonic() < deadline:
        try:
            plan = make_plan(mod, seed, i, tier)
            res = run_plan(mod, plan)
            keep = plan if (i < 4 or res.violations) else None
            send(('res', i, res.violations, res.stats, res.steps, res.procs, res.digest(), res.nontrivial, res.key, keep))
            if res.violations:
                break
        except Exception:
            send(('err', i, traceback.format_exc()))
            break
        i += step
    send(('done', idx))


def search(mod, seed, tier, total, cap, jobs):
    deadline = time.monotonic() + cap
    kids, bufs = {}, {}
    for k in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                _worker(mod, seed, tier, k, jobs, total, deadline, w)
            except BaseException:
                traceback.print_exc()
                code = 9
            os._exit(code)
        os.close(w)
        kids[r] = pid
        bufs[r] = b''
    found, errs, recs = [], [], []
    done = 0
    while kids:
        rd, _, _ = select.select(list(kids), [], [], 5)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                _, st = os.waitpid(kids.pop(fd), 0)
                bufs.pop(fd)
                continue
            bufs[fd] += b
            while len(bufs[fd]) >= 8:
                n = struct.unpack('<Q', bufs[fd][:8])[0]
                if len(bufs[fd]) < 8 + n:
                    break
                m = pickle.loads(bufs[fd][8:8 + n])
                bufs[fd] = bufs[fd][8 + n:]
                if m[0] == 'res':
                    recs.append(m[1:])
                    if m[2]:
                        found.append((m[1], m[2], m[9]))
                        deadline = min(deadline, time.monotonic())
                elif m[0] == 'err':
                    errs.append(m[1:])
                else:
                    done += 1
        if (found or errs) and kids:
            # the others stop after their current plan: give them a moment, then end them
            t0 = time.monotonic()
            while kids and time.monotonic() - t0 < 3:
                rd, _, _ = select.select(list(kids), [], [], 0.2)
                for fd in rd:
                    if not os.read(fd, 1 << 20):
                        os.close(fd)
                        os.waitpid(kids.pop(fd), 0)
            for fd, pid in list(kids.items()):
                os.kill(pid, 9)
                os.close(fd)
                os.waitpid(pid, 0)
            kids = {}
    if not found and not errs and done < jobs:
        errs.append((-1, 'a search worker ended early'))
    return recs, found, errs


# -- minimisation ---------------------------------------------------------------
def shrinks(mod, plan):
    """Smaller plans, most aggressive first."""
    if hasattr(mod, 'shrink'):
        yield from mod.shrink(plan)
    for field in ('sched', 'psched', 'fsched'):
        if plan.get(field):
            q = copy.deepcopy(plan)
            q[field] = []
            yield q
    for path in _oplists(plan):
        lst = _get(plan, path)
        n = len(lst)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                q = copy.deepcopy(plan)
                l2 = _get(q, path)
                cut = l2[a:a + size]
                if all(o.get('op') == 'new' for o in cut if isinstance(o, dict)) and n <= 2:
                    continue
                del l2[a:a + size]
                if _get(q, path) or path[0] in ('faults',):
                    yield q
            size //= 2
    for field in ('sched', 'psched', 'fsched'):
        s = plan.get(field)
        if s and len(s) > 1:
            for h in (s[:len(s) // 2], s[len(s) // 2:], s[:-1]):
                q = copy.deepcopy(plan)
                q[field] = h
                yield q
            for i in range(min(len(s), 16)):
                if s[i] > 3:
                    q = copy.deepcopy(plan)
                    q[field][i] = 0
                    yield q
    if plan.get('env'):
        for k in plan['env']:
            q = copy.deepcopy(plan)
            del q['env'][k]
            yield q
    if plan.get('start_method') == 'spawn':
        q = copy.deepcopy(plan)
        q['start_method'] = 'fork'
        yield q
    for name, d in (plan.get('data') or {}).items():
        for k in ('layout', 'nan', 'nan_f', 'zeros'):
            if d.get(k):
                q = copy.deepcopy(plan)
                del q['data'][name][k]
                yield q


def _oplists(plan):
    out = []
    for f in ('faults', 'ops'):
        if isinstance(plan.get(f), list):
            out.append((f,))
    for i, p in enumerate(plan.get('procs', ())):
        if isinstance(p, dict):
            for f in ('faults', 'ops'):
                if isinstance(p.get(f), list):
                    out.append(('procs', i, f))
    for i, p in enumerate(plan.get('incs', ())):
        if isinstance(p, dict):
            for f in ('faults', 'ops'):
                if isinstance(p.get(f), list):
                    out.append(('incs', i, f))
    return out


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def size(plan):
    return len(json.dumps(plan))


def minimise(mod, plan, cls, budget=45.0, tries=250):
    end = time.monotonic() + budget
    cur = plan
    n = 0
    progress = True
    while progress and time.monotonic() < end and n < tries:
        progress = False
        for q in shrinks(mod, cur):
            if time.monotonic() > end or n >= tries:
                break
            if size(q) >= size(cur):
                continue
            n += 1
            try:
                res = run_plan(mod, q)
            except Exception:
                continue
            if any(v[0] == cls for v in res.violations):
                cur = q
                progress = True
                break
    return cur, n


# -- reporting --------------------------------------------------------------------
def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = dict(x.split('=', 1) for x in line[7:].split(' ', 2)[:2])
                d['text'] = line[7:].split(' ', 2)[2]
                out.append(d)
    return out


def replay(path):
    obj = json.load(open(path))
    mod = load(obj['plan']['property'])
    res = run_plan(mod, obj['plan'])
    print(json.dumps({'digest': res.digest(), 'violations': res.violations}, indent=1))
    return 1 if res.violations else 0


def fresh_replay(path, hashseed='77'):
    """Replay in a fresh interpreter under another hash seed; (exit code, output)."""
    env = dict(os.environ, PYANEN_SIM_HASHSEED=hashseed)
    env.pop('PYANEN_SIM', None)
    p = subprocess.run([boot.PY, os.path.join(VERIF, 'check.py'), '--replay', path], env=env, capture_output=True, text=True)
    return p.returncode, p.stdout


def check(pid, tier, seed, jobs=None, total=None, cap=None):
    from .proc import Scratch
    t0 = time.monotonic()
    mod = load(pid)
    jobs = jobs or min(8, os.cpu_count() or 1)
    total = total or mod.RUNS[tier]
    cap = cap or getattr(mod, 'CAP', CAP)[tier]
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    # the same plan twice: same events and values?
    det = []
    for i in range(2):
        plan = make_plan(mod, seed, i, tier)
        a, b = run_plan(mod, plan), run_plan(mod, plan)
        det.append(a.digest() == b.digest())
    recs, found, errs = search(mod, seed, tier, total, cap, jobs)
    wall = time.monotonic() - t0
    status = 0
    if found:
        found.sort(key=lambda x: x[0])
        i, viol, plan = found[0]
        cls = viol[0][0]
        print('violation in run %d (seed %s): %s' % (i, seed, viol[0]), flush=True)
        small, n = (plan, 0) if cls == 'no-progress' else minimise(mod, plan, cls)
        res = run_plan(mod, small)
        v = [x for x in res.violations if x[0] == cls] or viol
        path = os.path.join(VERIF, 'evidence', 'replays', '%s_%s_%s.json' % (pid, seed, i))
        json.dump({'plan': small, 'violation': v[0], 'digest': res.digest(), 'original': plan, 'shrink_runs': n},
                  open(path, 'w'), indent=1)
        rc, out = fresh_replay(path)
        ok = rc == 1
        if not ok:
            v = viol
            json.dump({'plan': plan, 'violation': viol[0], 'digest': None, 'shrink_runs': n}, open(path, 'w'), indent=1)
            for hs in ('77', '0'):
                rc, out = fresh_replay(path, hs)
                ok = ok or rc == 1
        if ok:
            print('%s: %s' % (v[0][0], v[0][1]))
            print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
            status = 1
        else:
            print('the violation did not replay in a fresh process: harness error\n%s' % out[-2000:])
            status = 2
    elif errs:
        print('harness error in run %s:\n%s' % errs[0])
        status = 2
    elif hasattr(mod, 'aggregate'):
        pass
    evidence(mod, pid, tier, seed, recs, found, det, wall, jobs, total)
    if status == 0:
        print('%s %s: held on %d simulated runs (%d seeds planned), %.1f s' % (pid, tier, len(recs), total, wall))
    return status


def evidence(mod, pid, tier, seed, recs, found, det, wall, jobs, total):
    stats, keys, digs = {}, set(), set()
    steps = procs = nontriv = 0
    samples = []
    for i, viol, st, sp, pr, dg, nt, key, keep in sorted(recs, key=lambda x: x[0]):
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        steps += sp
        procs += pr
        digs.add(dg)
        if nt:
            keys.add(dg)
        if keep is not None and len(samples) < 3:
            samples.append(keep)
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
    cov = {
        'evaluations': len(recs),
        'distinct_nontrivial': len(keys),
        'rule': mod.RULE,
        'samples': samples,
        'seeds': {'VERIF_SEED': seed, 'plan_indices': [0, len(recs)], 'planned': total},
        'runs_per_hour': int(len(recs) / max(wall, 1e-9) * 3600),
        'simulated_processes': procs,
        'simulated_steps': steps,
        'simulated_time_s': round(steps * 0.001, 3),
        'simulated_time_note': 'the code has no timers; the virtual clock advances 1 ms per intercepted step',
        'faults_injected': faults,
        'probes': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault.')},
        'distinct_event_logs': len(digs),
        'distinct_measure': 'SHA-256 of the ordered event log (every intercepted file, task, pool and cluster step) and of all returned values',
        'components': mod.COMPONENTS,
        'determinism_rerun_equal': det,
        'jobs': jobs,
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(seed), 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
          'wall_s': round(wall, 2), 'violations': len(found)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


COMMON_ASSUMPTIONS = [
    'numpy, scipy, pandas, scikit-learn, properscoring and CPython are trusted',
    'seeded sampling: a clean run is evidence over the explored schedules and faults, not a proof',
]


def main(argv):
    from .proc import Scratch
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    Scratch.base = os.path.realpath(tempfile.mkdtemp(prefix='pyanen_sim_', dir=base))
    if argv[0] == '--zygote':
        shutil.rmtree(Scratch.base, ignore_errors=True)
        boot.boot()
        return alt.serve(argv[1], argv[2])
    pid = argv[0] if argv[0][0] == 'C' else json.load(open(argv[1]))['plan']['property'] if argv[0] == '--replay' else argv[1] if len(argv) > 1 else None
    if pid in ALT:
        alt.start(Scratch.base)
    boot.boot()
    try:
        if argv[0] == '--selftest':
            print('PyAnEn imported from %s; seams installed' % boot.REPO)
            return 0
        if argv[0] == '--replay':
            return replay(argv[1])
        if argv[0] == '--one':                       # --one C01 seed index
            mod = load(argv[1])
            plan = make_plan(mod, int(argv[2]), int(argv[3]), os.environ.get('VERIF_TIER', 'quick'))
            print(json.dumps(plan))
            res = run_plan(mod, plan)
            print(res.digest(), res.stats)
            for v in res.violations:
                print(v)
            return 0
        if argv[0] == '--digests':                   # --digests C01 seed n
            mod = load(argv[1])
            for i in range(int(argv[3])):
                print(i, run_plan(mod, make_plan(mod, int(argv[2]), i, 'quick')).digest())
            return 0
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        kw = {}
        for a in argv[1:]:
            k, v = a.lstrip('-').split('=')
            kw[k] = float(v) if k == 'cap' else v if k == 'tier' else int(v)
        tier = kw.pop('tier', tier)
        return check(argv[0], tier, seed, **kw)
    finally:
        alt.stop()
        shutil.rmtree(Scratch.base, ignore_errors=True)
