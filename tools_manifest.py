"""Regenerates MANIFEST.json (run by hand)."""
import json
T = 'deterministic simulation: '
N = {
 'C01': ('seeded schedules of a simulated process pool vs. serial reference', 'exploration', 'Seeded search over pool schedules, worker counts, map axes, chunk sizes, start methods and data; every metric of every verifier is compared with the serial run. Trusts numpy/scipy and that the simulated pool orders tasks as concurrent.futures may.'),
 'C02': ('seeded task order, death and re-execution in a simulated ray cluster vs. trapezoid oracle', 'exploration', 'Seeded search over completion orders, cores, memory modes, saving and task deaths; compared with an independent trapezoidal sum of the CDFs. The ray stub reproduces read-only shared objects, at-least-once execution and arbitrary completion order.'),
 'C03': ('crash/disk-fault injection at file operations, restart, poisoned-data reuse', 'fault_enumeration', 'Crashes, torn/short writes, full disk and errors at positions sampled over every step the fault-free run reaches, over up to three incarnations. Power loss of unsynced pages is not modelled.'),
 'C04': ('seeded call/setter/restart histories vs. non-saving reference model', 'exploration', 'Histories with saving compared call by call with a verifier that never saves. Custom save names are the responsibility of the caller.'),
 'C05': ('seeded lifecycle histories with faults, whole-tree diff after each operation', 'fault_enumeration', 'The complete scratch tree (with foreign files and look-alike neighbours) is compared before and after every operation; destructive calls are confined by the seam.'),
 'C06': ('fault injection (task, worker, disk, cluster, interrupt) vs. fault-free values', 'fault_enumeration', 'One or two faults per history, every outcome before, at and after the fault compared with a serial fault-free reference.'),
 'C07': ('seeded interleaving of several simulated processes at file operations, with kills', 'exploration', 'Two to four processes share directories; one runs at a time and the seed decides which, at file-operation granularity.'),
 'C08': ('simulated pool with per-worker generator state; repeat, dependence and fit tests', 'exploration', 'Members are mapped to uniforms; repeats, dependence, misfit and schedule dependence are tested with false-alarm rate below 1e-10 per test.'),
 'C09': ('seeded random streams vs. independent bootstrap oracle', 'exploration', 'Order-statistic tests (false-alarm rate below 1e-10) against an independent bootstrap of the un-bootstrapped metric; range, layout, pairing and reproducibility checked exactly.'),
 'C10': ('seeded setter/metric histories vs. fresh-process reference model', 'exploration', 'Every metric of a history is compared with a fresh verifier in a fresh process; inputs and settings are compared before and after each operation.'),
 'C11': ('crash/disk-fault injection and writer interleaving, target read after every step', 'fault_enumeration', 'The target is read back after every intercepted step of up to four writers; replaced, partial, vanished or wrong content is reported.'),
 'C12': ('fault injection, resource and settings diff after every call', 'fault_enumeration', 'One fault per history; settings, files, cluster state compared before and after every call. Faults in the clean-up itself are not injected.'),
 'C13': ('simulated pool with per-worker generator state; rank bounds, uniformity, independence', 'exploration', 'Rank bounds exact; uniformity and independence by tests with false-alarm rate below 1e-10.'),
 'C14': ('simulated pool with per-worker generator state; range, uniformity, independence, schedule independence', 'exploration', 'Range and un-randomised cells exact; uniformity and independence by tests with false-alarm rate below 1e-10.'),
 'C15': ('seeded hand-over histories across simulated processes vs. fresh-process reference model, whole-tree diff', 'exploration', 'Pickle, cloudpickle, copies and pool workers, over up to four simulated processes, some in an interpreter with another hash seed.'),
}
NA = {
 'N01': 'a score against its textbook formula is a pure function of its input: no schedule, clock, I/O, randomness or fault takes part, so there is nothing for a simulator to vary',
 'N02': 'properness of distribution functions is a pure numerical fact about one call; no scheduling, time, I/O or fault dimension',
 'N03': 'the I/O happens inside the HDF5/NetCDF C library, below any seam this process can control, and dask (needed for multi-file opening) is not installed here',
 'N04': 'equality of a reduction with its per-slice evaluation is a pure function of the input; the parallel form of it is covered by C01',
}
m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest',
     'checks': [{'property': k, 'quick_cmd': 'python3 check.py %s' % k, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % k,
                 'evidence_file': 'evidence/%s.json' % k, 'technique': T + t, 'level': l, 'level_note': n} for k, (t, l, n) in N.items()],
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: every seam is installed from outside (Python-level file API, concurrent.futures, ray, entropy, clock). '
              'Replay: python3 check.py --replay <file>.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
