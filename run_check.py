#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, explores it, reports.

  run_check.py C01 [--tier quick|thorough]     exit 0 held, 1 violated, anything else: error of the check
  run_check.py --replay replays/X.json         executes a recorded counterexample again (exit 1 if it still fails)
  run_check.py --selftest                      the explorer on scenarios with known verdicts, then --conformance
  run_check.py --conformance                   the models of semaphores, threads and clocks against glibc/Linux
"""
import sys, os, json, time, subprocess, hashlib, fcntl, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('OQPI_REPO', '/repo')
B = os.path.join(V, 'build')
CXX = 'clang++'
COMMON = '-std=c++17 -g -fno-omit-frame-pointer -fno-pie -U_FORTIFY_SOURCE -fno-stack-protector'.split()
# -fno-inline: clang's instrumentation skips accesses to stack objects it can prove uncaptured
HFLAGS = COMMON + '-O1 -fno-inline -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -w'.split()
VARIANTS = {'checks': [], 'ndebug': ['-DNDEBUG']}

# a scenario is explored beyond its own bound as long as the next level has at most this many alternatives to start with
GROW = {'quick': {'checks': 100000, 'ndebug': 20000}, 'thorough': {'checks': 2000000, 'ndebug': 300000}}

class CheckError(Exception): pass

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def rt_object():
    src = [os.path.join(V, 'mc', f) for f in ('rt.cpp', 'mc.h')]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    o = os.path.join(B, 'rt-%s.o' % h)
    with open(os.path.join(B, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            rc, out = sh(['g++'] + COMMON + ['-O2', '-c', src[0], '-o', t])
            if rc: raise CheckError('runtime does not compile:\n' + out)
            os.rename(t, o)
    return o

def build_many(jobs):
    """jobs: list of (harness, variant); returns {job: exe}"""
    rt = rt_object(); procs = {}
    for h, v in jobs:
        exe = os.path.join(B, '%s-%s-%d' % (h, v, os.getpid()))
        cmd = '%s -c %s -o %s.o && clang++ -no-pie -static-libstdc++ %s.o %s -o %s -ldl -lpthread' % (
            ' '.join([CXX] + HFLAGS + VARIANTS[v] + ['-I' + os.path.join(V, 'mc'), '-include', 'prelude.h', '-I' + os.path.join(REPO, 'include')]),
            os.path.join(V, 'harness', h + '.cpp'), exe, exe, rt, exe)
        procs[(h, v)] = (exe, subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    res = {}
    for j, (exe, p) in procs.items():
        out, _ = p.communicate()
        if os.path.exists(exe + '.o'): os.unlink(exe + '.o')
        if p.returncode: raise CheckError('%s (%s) does not compile against %s:\n%s' % (j[0], j[1], REPO, out[-6000:]))
        res[j] = exe
    return res

def known_findings():
    res = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m: res.append(m.groups())
    return res

def symbolise(exe, pcs):
    if not pcs: return []
    rc, out = sh(['addr2line', '-Cfpe', exe] + pcs)
    return [l.replace(REPO + '/', '') for l in out.splitlines()]

def explore(exe, args, timeout):
    out = exe + '.json'
    if os.path.exists(out): os.unlink(out)
    p = subprocess.run([exe, '--out', out] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    try: j = json.load(open(out))
    except Exception as e: raise CheckError('no result from %s (exit %d): %s\n%s' % (exe, p.returncode, e, p.stderr[-2000:]))
    finally:
        if os.path.exists(out): os.unlink(out)
    return p.returncode, j, p.stderr

def check(prop, tier):
    t0 = time.time()
    os.makedirs(B, exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True); os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    for f in os.listdir(os.path.join(V, 'replays')):
        if f.startswith(prop + '-'): os.unlink(os.path.join(V, 'replays', f))
    harness = prop.lower()
    variants = ['checks', 'ndebug']
    exes = build_many([(harness, v) for v in variants])
    t_build = time.time() - t0
    known = [k for k in known_findings() if k[0] == prop]
    limit = 600 if tier == 'quick' else 6 * 3600
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'executions': 0, 'scenarios': [], 'samples': []}
    viol = None; hits = {}
    try:
        for v in variants:
            exe = exes[(harness, v)]
            args = ['--prop', prop, '--time', str(limit if v == 'checks' else limit // 4)]
            if tier == 'thorough': args += ['--thorough']
            if v == 'ndebug': args += ['--less', '1']
            args += ['--grow', str(GROW[tier][v])]
            for k in known: args += ['--known', k[1]]
            if os.environ.get('MC_JOBS'): args += ['--jobs', os.environ['MC_JOBS']]
            rc, j, err = explore(exe, args, limit + 300)
            if rc not in (0, 1): raise CheckError('explorer failed (exit %d) on %s: %s %s' % (rc, exe, err[-1500:], json.dumps(j)[-1500:]))
            for s in j['scenarios']:
                cov['states'] += s['states']; cov['transitions'] += s['transitions']; cov['executions'] += s['executions']
                cov['traces_validated_against_impl'] += s['complete']
                cov['scenarios'].append({'name': s['name'], 'build': v, 'deviation_bound': s['bound'], 'bound_completed': s['bounds_completed'],
                    'exhausted': s['deferred'] == 0 and not s['capped'] and 'violation' not in s, 'executions': s['executions'], 'complete': s['complete'],
                    'pruned_as_equivalent': s['pruned'], 'states': s['states'], 'transitions': s['transitions'], 'distinct_outcomes': s['outcomes'],
                    'longest_execution': s['max_ops'], 'stopped_early': bool(s['capped']), 'wall_s': s['wall_s'],
                    'known_findings_hit': {k['key']: k['hits'] for k in s['known']}})
                for k in s['known']: hits[k['key']] = hits.get(k['key'], 0) + k['hits']
                for x in s['samples'][-1:]:
                    if v == 'checks': cov['samples'].append({'scenario': s['name'], 'execution': x})
                if 'violation' in s and viol is None:
                    w = s['violation']
                    viol = {'property': prop, 'scenario': s['name'], 'build': v, 'sig': w['sig'], 'message': w['msg'], 'deviations': w['cost'], 'choices': w['choices'],
                            'stack': symbolise(exe, w['stack']), 'threads': [{'thread': f['thread'], 'operation': f['op'], 'at': (symbolise(exe, [f['pc']]) or [''])[0]} for f in w['frontier']]}
                    path = os.path.join(V, 'replays', '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', s['name'])))
                    tr = path + '.trace'; inp = path + '.in'
                    with open(inp, 'w') as f: f.write('%s %d %s\n' % (s['name'], len(w['choices']), ' '.join('%d %d' % tuple(c) for c in w['choices'])))
                    if os.path.exists(tr): os.unlink(tr)
                    sh([exe, '--replay', inp, '--trace', tr, '--out', '/dev/null'])
                    os.unlink(inp)
                    if os.path.exists(tr):
                        lines = open(tr).read().splitlines(); os.unlink(tr)
                        pcs = sorted(set(re.findall(r'0x[0-9a-f]+$', '\n'.join(lines), re.M)))
                        names = dict(zip(pcs, symbolise(exe, pcs)))
                        viol['schedule'] = [re.sub(r'(0x[0-9a-f]+)$', lambda m: names.get(m.group(1), m.group(1)), l) for l in lines[:2000]]
                    json.dump(viol, open(path, 'w'), indent=1)
                    viol['path'] = path
            if viol: break
    finally:
        for e in exes.values():
            if os.path.exists(e): os.unlink(e)
    if not cov['scenarios']: raise CheckError('no scenario for ' + prop)
    cov['exhaustive'] = all(s['exhausted'] for s in cov['scenarios'])
    cov['samples'] = cov['samples'][:12]
    cov['build_s'] = round(t_build, 1)
    cov['explanation'] = ('Every interleaving of the visible operations of the real library code (compiled from %s/include, instrumented), every modelled fault and every free input choice '
        'of each scenario was enumerated up to the given number of deviations (preemptions, faults, non-default timeouts); equivalent interleavings are merged by their happens-before history. '
        'states: distinct happens-before histories reached; transitions: visible operations executed; traces_validated_against_impl: executions of the implementation run to their end and judged by the oracle.' % REPO)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['sequentially consistent interleavings; weaker behaviours are only reachable through data races, which are reported as such',
                          'semaphores, pthreads and clocks are the runtime\'s models of glibc/Linux, compared with the real ones by run_check.py --conformance (every operation sequence up to a depth on both)',
                          'state merging uses 56 bit hashes of happens-before histories'],
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if viol else 0}
    if viol: ev['violation'] = {k: viol[k] for k in ('scenario', 'build', 'sig', 'message')}
    tmp = os.path.join(V, 'evidence', prop + '.json.tmp%d' % os.getpid())
    json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, os.path.join(V, 'evidence', prop + '.json'))
    n = len(cov['scenarios'])
    print('%s %s: %d scenario runs, %d executions, %d states, %d transitions, %.1f s%s' % (prop, tier, n, cov['executions'], cov['states'], cov['transitions'], ev['wall_s'], ' (exhaustive)' if cov['exhaustive'] else ''))
    for k in known:
        if hits.get(k[1]): print('KNOWN-FINDING: property=%s %s [%s]' % (prop, k[2], k[1]))
        elif not viol: print('note: listed finding %s was not observed' % k[1])
    if viol:
        print('%s in scenario %s (%s build): %s' % (viol['sig'], viol['scenario'], viol['build'], viol['message']))
        for l in viol['stack'][:12]: print('    ' + l)
        print('VIOLATION property=%s replay=%s' % (prop, viol['path']))
        return 1
    return 0

def do_replay(path):
    d = json.load(open(path)); os.makedirs(B, exist_ok=True)
    j = (d['property'].lower(), d['build']); exe = build_many([j])[j]
    try:
        inp = exe + '.in'
        with open(inp, 'w') as f: f.write('%s %d %s\n' % (d['scenario'], len(d['choices']), ' '.join('%d %d' % tuple(c) for c in d['choices'])))
        rc, res, err = explore(exe, ['--replay', inp], 300)
        os.unlink(inp)
    finally: os.unlink(exe)
    print(json.dumps(res))
    return rc

def selftest():
    os.makedirs(B, exist_ok=True)
    exe = build_many([('selftest', 'checks')])[('selftest', 'checks')]
    bad = 0; n = 0
    try:
        for line in subprocess.check_output([exe, '--list'], text=True).split('\n'):
            if not line.strip(): continue
            name = line.split()[0]; n += 1
            rc, j, err = explore(exe, ['--scenario', name], 300)
            v = j['scenarios'][0].get('violation')
            got = 'ok' if not v else v['sig']
            good = (got == 'ok' and rc == 0) if name.startswith('ok-') else v is not None and rc == 1 and name.startswith('bad-' + got + '-') and v['reproduced']
            if not good: bad += 1; print('selftest: %s gave %s (exit %d)' % (name, got, rc))
    finally: os.unlink(exe)
    print('selftest: %d scenarios, %d wrong' % (n, bad))
    return 2 if bad or conformance() else 0

def conformance():
    """the modelled operating system against the real one: the same enumerated operation sequences on both"""
    os.makedirs(B, exist_ok=True)
    src = os.path.join(V, 'harness', 'conformance.cpp'); real = os.path.join(B, 'conf-real-%d' % os.getpid()); table = real + '.bin'
    exe = None
    try:
        rc, out = sh(['g++', '-O1', '-w', '-DCONF_REAL', '-o', real, src, '-lpthread'])
        if rc: raise CheckError(out)
        r = subprocess.run([real, table], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        print('conformance: ' + r.stdout.strip())
        if r.returncode == 3: print('conformance: skipped'); return 0
        if r.returncode: return 1
        exe = build_many([('conformance', 'checks')])[('conformance', 'checks')]
        os.environ['CONF_TABLE'] = table
        rc, j, err = explore(exe, [], 300)
        bad = 0
        for s in j['scenarios']:
            v = s.get('violation')
            print('conformance: %-24s %7d sequences on the models %s' % (s['name'], s['executions'], 'DIFFER: ' + v['msg'] if v else 'agree'))
            if v:
                bad += 1; m = re.search(r'part (\d+) sequence (\d+)', v['msg'])
                if m: print('    real system:' + sh([real, '--show', m.group(1), m.group(2)])[1])
        return bad
    finally:
        for f in (real, table, exe):
            if f and os.path.exists(f): os.unlink(f)

if __name__ == '__main__':
    a = sys.argv[1:]
    try:
        if a and a[0] == '--selftest': sys.exit(selftest())
        if a and a[0] == '--conformance': sys.exit(2 if conformance() else 0)
        if a and a[0] == '--replay': sys.exit(do_replay(a[1]))
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a: tier = a[a.index('--tier') + 1]
        sys.exit(check(a[0], tier))
    except CheckError as e:
        print('check error: %s' % e, file=sys.stderr); sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print('check error: %s' % e, file=sys.stderr); sys.exit(2)
