"""C11: a written grid matrix is complete or not there at all."""
import copy
import os
import re

import numpy as np

from sim import ops as O
from sim import proc
from . import c03, common as C

ID = 'C11'
TITLE = 'A written grid matrix is complete or not there at all'
LEVEL = 'fault_enumeration'
RULE = ('a case is one to four simulated processes writing matrices to one or two files (absent, holding an earlier matrix, or foreign content), with and '
        'without overwriting, interleaved at every file operation, some killed or hit by a disk error or interrupt at a step the fault-free run reaches; '
        'the target is read back after every single step; non-trivial when a fault fired, writers interleaved, or a file existed before; distinct by '
        'event-log digest')
RUNS = {'quick': 6500, 'thorough': 60000}
COMPONENTS = {'real': ['PyAnEn.Grid.write_matrix', 'Python text/buffered I/O on real scratch files'],
              'stub': ['file operations pass through a fault-injecting seam']}
ASSUMPTIONS = ['a kill loses what the process had not yet handed to the operating system; loss of unsynced pages at power failure is not modelled',
               'a writer observes only file operations of the other writers']


def mat(r):
    n, m = r.choice([(1, 1), (2, 3), (3, 2), (5, 4), (1, 8), (8, 1), (12, 7), (30, 11), (0, 3), (3, 0), (2, 60)])
    if r.random() < 0.03:
        n, m = r.choice([(101, 3), (260, 2), (1030, 1), (2, 700)])
    elif r.random() < 0.04:
        # around a power of two or ten
        n, m = r.choice([16, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048]) * r.choice([1, 1, 2]) + r.choice([-1, 0, 1]), r.choice([1, 2])
        if r.random() < 0.25:
            n, m = m, n
    return {'shape': [n, m], 'seed': r.randrange(1 << 30), 'nan': r.choice([0, 0, 0.2, 0.6, 1.0]), 'mag': r.choice([0, 0, 5, -7, 120]),
            'int': r.random() < 0.15, 'f4': r.random() < 0.15, 'inf': r.random() < 0.1}


def gen(r, i, tier):
    files = ['grid.txt'] if r.random() < 0.8 else ['grid.txt', './out.txt']
    pre = {}
    for f in files:
        z = r.random()
        if z < 0.3:
            pre[f] = {'mat': mat(r)}
        elif z < 0.5:
            pre[f] = {'text': r.choice(['', 'not a matrix', '[2, 2]\n(\n(1, 2),\n'])}
    n = r.choice([1, 1, 1, 2, 2, 3, 4])
    procs = []
    for p in range(n):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            kw = {}
            if r.random() < 0.55:
                kw['overwrite'] = r.random() < 0.8
            ops.append({'op': 'write_matrix', 'file': r.choice(files), 'mat': mat(r), 'kw': kw})
        for j, o in enumerate(ops):
            o['sid'] = j
        procs.append(ops)
    faults = {}
    if r.random() < 0.6:
        for p in r.sample(range(n), 1 if r.random() < 0.8 else min(2, n)):
            z = r.random()
            cls = r.choice(['fs.write', 'fs.write', 'fs.open_w', 'fs.close', 'fs.rename', 'fs.link', 'fs.remove', 'fs.stat', 'fs', 'any'])
            kind = 'crash' if z < 0.5 else 'intr' if z < 0.65 else r.choice(['enospc', 'eio', 'eacces'])
            faults[str(p)] = [{'cls': cls, 'pos': round(r.random(), 3), 'kind': kind, 'frac': r.choice([0.0, 0.3, 0.5, 0.9, 1.0])}]
    return {'seed': r.randrange(1 << 30), 'pre': pre, 'procs': procs, 'faults': faults, 'fsched': C.sched(r), 'sched': [],
            'psched': [r.randrange(1 << 16) for _ in range(r.choice([7, 29, 101]))], 'burst': r.choice([0, 0, 1, 3, 10]), 'short': r.random() < 0.4,
            'umask': 0, 'link': r.random() < 0.08}


def parse(b):
    """The matrix a complete file holds, or None."""
    try:
        t = b.decode()
    except UnicodeDecodeError:
        return None
    m = re.match(r'\s*\[\s*(\d+)\s*,\s*(\d+)\s*\]\s*\(', t)
    if not m or not t.rstrip().endswith(')'):
        return None
    n, k = int(m.group(1)), int(m.group(2))
    body = t[m.end():].rstrip()[:-1]
    rows = re.findall(r'\(([^()]*)\)\s*,?', body)
    if re.sub(r'\([^()]*\)\s*,?', '', body).strip():
        return None
    if len(rows) != n:
        return None
    out = []
    for row in rows:
        c = [x.strip() for x in row.split(',')] if row.strip() else []
        if c and c[-1] == '':
            c.pop()
        if len(c) != k:
            return None
        out.append(c)
    return n, k, out


def holds(b, a):
    """None when the bytes hold exactly matrix a."""
    p = parse(b)
    if p is None:
        return 'not a complete matrix file'
    n, k, rows = p
    if (n, k) != a.shape:
        return 'dimensions [%d, %d] instead of %s' % (n, k, a.shape)
    for i in range(n):
        for j in range(k):
            try:
                v = a.dtype.type(rows[i][j]) if a.dtype.kind == 'f' else float(rows[i][j])
            except ValueError:
                return 'cell (%d, %d) reads %r' % (i, j, rows[i][j])
            if not (v == a[i, j] or (np.isnan(v) and np.isnan(a[i, j]))):
                return 'cell (%d, %d) reads %r instead of %r' % (i, j, rows[i][j], a[i, j])
    return None


def path(root, f):
    return os.path.join(root, 'cwd', f[2:]) if f.startswith('./') else os.path.join(root, f)


def text_of(a):
    return '[%d, %d]\n(\n%s)' % (a.shape + (''.join('(%s),\n' % ', '.join(str(e) for e in row) for row in a),))


def run(plan):
    res = C.Res()
    procs = plan['procs']
    writers = {}
    for p, ops in enumerate(procs):
        for j, o in enumerate(ops):
            writers.setdefault(o['file'], []).append((O.matrix(o['mat']), bool(o['kw'].get('overwrite')), p, j))
    files = sorted(set(writers) | set(plan['pre']))
    bodies = [C.exec_ops(plan, ops) for ops in procs]

    def prep(root):
        for d in ('cwd', 'home', 'tmp'):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f, c in plan['pre'].items():
            dst = path(root, f)
            if plan['link']:
                os.symlink(dst + '.target', dst)
            with open(dst, 'w') as h:
                h.write(c['text'] if 'text' in c else text_of(O.matrix(c['mat'])))

    def rd(root, f):
        try:
            with open(path(root, f), 'rb') as h:
                return h.read()
        except FileNotFoundError:
            return None
    fl = {}
    if plan['faults']:
        with C.Scratch('dry') as root:
            prep(root)
            dry, _ = proc.run_multi(root, plan, bodies)
        for p, f in plan['faults'].items():
            if int(p) < len(procs):
                fl[int(p)] = c03.resolve(f, dry[int(p)].info.get('counters', {}))
    with C.Scratch() as root:
        prep(root)
        cur = {f: rd(root, f) for f in files}
        first = dict(cur)

        def watch(p):
            for f in files:
                now = rd(root, f)
                was = cur[f]
                if now == was:
                    continue
                cur[f] = now
                if now is None:
                    res.bad('vanished', '%s existed and is gone after a step of process %d (faults %s)' % (f, p, fl))
                    continue
                ok = [w for w in writers.get(f, ()) if holds(now, w[0]) is None and w[2] == p]
                if not ok:
                    res.bad('partial', '%s holds %r..., which is neither its previous content nor a complete matrix, after a step of process %d (faults %s)' % (
                        f, now[:60], p, fl))
                elif was is not None and not any(w[1] for w in ok):
                    res.bad('replaced', '%s existed and was replaced by process %d, which did not ask for overwriting (faults %s)' % (f, p, fl))
        outs, trace = proc.run_multi(root, plan, bodies, faults=fl, watch=watch)
        res.nontrivial = len(procs) > 1 or bool(plan['pre'])
        done = {}
        for p, o in enumerate(outs):
            res.absorb(o)
            for e in o.info.get('escapes') or ():
                res.bad('escape', 'touched something outside the scratch area: %s' % e)
            if o.info.get('fired'):
                res.nontrivial = True
                res.hit('faults-fired')
            for i, y, _, ff in o.results:
                op = procs[p][i]
                if y[0] == 'ok':
                    if y[1] is not True:
                        if not ff:
                            res.bad('return', 'process %d, op %d returned %r without a fault' % (p, i, y[1]))
                    else:
                        done.setdefault(op['file'], []).append((p, i))
                elif not ff and len(procs) == 1 and not any(m[3] for m in o.results[:i]):
                    # alone and without a fault: may refuse only to protect a file
                    existed = first.get(op['file']) is not None or any(procs[p][k]['file'] == op['file'] for k in range(i))
                    if op['kw'].get('overwrite') or not existed:
                        res.bad('failed', 'op %d raised %s: %s without a fault' % (i, y[1], y[2]))
        for f, d in done.items():
            b = rd(root, f)
            mats = [O.matrix(procs[p][i]['mat']) for p, i in d]
            # the last successful writer of some process must be what is there (or a failed overwriter's complete matrix)
            if len(procs) == 1 and not any(o.info.get('fired') for o in outs):
                dd = holds(b, mats[-1]) if b is not None else 'is not there'
                if dd:
                    res.bad('content', '%s after a successful write: %s' % (f, dd))
            elif b is None or all(holds(b, w[0]) for w in writers[f]):
                res.bad('content', '%s was written successfully but holds none of the matrices' % f)
            no = [x for x in d if not procs[x[0]][x[1]]['kw'].get('overwrite')]
            if len(no) > 1 or (no and first[f] is not None):
                res.bad('replaced', '%d writers that were told not to overwrite reported success on %s%s' % (
                    len(no), f, '' if first[f] is None else ', which existed before'))
            if b is None or all(holds(b, m) for m in mats):
                # some other attempted (failed) overwriter may have completed its file
                if not any(holds(b or b'', w[0]) is None and w[1] for w in writers[f]):
                    res.bad('content', '%s does not hold a matrix whose writer reported success' % f)
        for f in files:
            res.dig.update(repr(cur[f]).encode())
        res.dig.update(bytes(trace))
        res.hit('context-switches', sum(a != b for a, b in zip(trace, trace[1:])))
        for o in outs:
            res.values(C.outs(o))
    return res


def shrink(plan):
    for i in range(len(plan['procs'])):
        if len(plan['procs']) > 1:
            q = copy.deepcopy(plan)
            del q['procs'][i]
            q['faults'] = {}
            yield q
    for i in range(len(plan['procs'])):
        for j in range(len(plan['procs'][i])):
            if len(plan['procs'][i]) > 1:
                q = copy.deepcopy(plan)
                del q['procs'][i][j]
                yield q
    for f in list(plan['pre']):
        q = copy.deepcopy(plan)
        del q['pre'][f]
        yield q
    if plan['faults']:
        q = copy.deepcopy(plan)
        q['faults'] = {}
        yield q
