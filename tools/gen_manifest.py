#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'stateless model checking of the compiled library: exhaustive enumeration of thread schedules, faults and inputs within a deviation bound'
NOTE = ('Every schedule with at most the stated number of deviations (preemptions, injected faults, early timeouts) of every listed scenario is executed on the real code and judged; '
        'single-worker scenarios are enumerated without a bound. Assumes sequentially consistent interleavings, apart from loads of atomics weaker than seq_cst, which may miss the last write, and weak compare-exchanges, which may fail (other weak behaviours show up as reported data races), and trusts the models of semaphores, '
        'pthreads and clocks in mc/rt.cpp, which run_check.py --conformance compares with the real ones (every operation sequence up to a depth on both).')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.cpp')):
        checks.append({'property': i, 'quick_cmd': 'python3 run_check.py %s --tier quick' % i, 'thorough_cmd': 'python3 run_check.py %s --tier thorough' % i,
                       'technique': TECH, 'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 run_check.py --selftest', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
