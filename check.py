#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current tree
   check.py replay FILE                 replay one reported violation against the natively compiled code
   check.py setup                       build the symbolic executor
   check.py job NAME [symex options]    developer: run one job"""
import sys, os, json, re, subprocess, time, shutil, fcntl, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, 'tools'))
REPO = os.environ.get('VERIF_REPO', '/repo')
from jobs import JOBS, PROPS
SEED = int(os.environ.get('VERIF_SEED', '1') or 1); NCPU = max(2, min(8, os.cpu_count() or 2))
BOOST = ['-I' + REPO + '/include', '-I/opt/vp/boost-root/guard', '-I/opt/vp/boost-root']
IRF = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-DVF_IR', '-c']
NATF = ['-g1', '-O1', '-fno-omit-frame-pointer']
SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr'], 'tsan': ['-fsanitize=thread'], 'plain': []}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='exitcode=66:halt_on_error=1')

def sh(cmd, timeout=600, out=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout); return p.returncode, o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, _ = p.communicate(); return -999, o.decode(errors='replace')

def engine():
    b = os.path.join(V, 'build'); os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, '.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX); r, o = sh(['make', '-C', os.path.join(V, 'engine')], 1500)
        if r or not os.path.exists(os.path.join(b, 'symex')): print(o); print('cannot build the symbolic executor'); sys.exit(3)
    return os.path.join(b, 'symex')

def flags(j): return ['-std=' + j.get('std', 'c++17'), '-w', '-I' + os.path.join(V, 'harness'), '-I' + j['dir']] + BOOST + ['-DBOOST_ENABLE_ASSERT_HANDLER', '-D_GLIBCXX_ASSERTIONS'] + (['-DVF_REUSE'] if '--reuse' in j.get('sym', '') else []) + j.get('flags', '').split()
def mkjob(name, d, seed):
    j = dict(JOBS[name]); j['name'] = name; j['dir'] = os.path.join(d, name); shutil.rmtree(j['dir'], ignore_errors=True); os.makedirs(j['dir'])
    if 'chart' in j:
        j['src'] = os.path.join(j['dir'], 'chart.cpp'); r, o = sh([sys.executable, os.path.join(V, 'tools/gen_decl.py' if 'decl' in j else 'tools/gen_chart.py'), j['chart'], j['src'], str(seed * 100 + j['decl'] if 'decl' in j else seed), j.get('gen', '')])
        if r: raise SystemExit(o)
    else: j['src'] = os.path.join(V, 'harness', j['source'])
    return j
class CompileError(Exception): pass
def compile_ir(j):
    t = time.time(); r, o = sh(['clang++-18'] + flags(j) + IRF + [j['src'], '-o', j['dir'] + '/c.bc'])
    if r: raise CompileError(o)
    j['t_ir'] = time.time() - t; return j
def compile_nat(j, kind=None):
    kind = kind or j.get('san', 'asan'); t = time.time(); out = j['dir'] + '/nat-' + kind;
    if os.path.exists(out + '.ok'): return out
    H = os.path.join(V, 'harness/')
    if j.get('threads'): # the run-time support is never instrumented: in the TSAN build only modelled synchronisation orders accesses
        o2 = j['dir'] + '/rt-' + kind; bf = ['-DVF_%s=%s' % (k.upper(), m.group(1)) for k in ('spurious', 'preempt') for m in [re.search('--%s (\\S+)' % k, j.get('sym', ''))] if m]; r = 0
        for f in ('rt', 'native', 'baton'):
            r, o = sh(['g++'] + flags(j) + NATF + bf + ['-pthread', '-DVF_THREADS', '-c', H + f + '.cpp', '-o', o2 + f + '.o'])
            if r: raise CompileError(o)
        r, o = sh(['g++'] + flags(j) + NATF + SAN[kind] + (['-DVF_NOATOMIC'] if '--no-atomic-yield' in j.get('sym', '') else []) + ['-DVF_THREADS', '-pthread', '-include', H + 'vfthread.h', j['src'], o2 + 'rt.o', o2 + 'native.o', o2 + 'baton.o', '-o', out])
    else: r, o = sh(['clang++-18' if kind == 'plain' else 'g++'] + flags(j) + NATF + SAN[kind] + [j['src'], H + 'rt.cpp', H + 'native.cpp', '-o', out])
    if r: raise CompileError(o)
    open(out + '.ok', 'w').close(); return out
def replay(nat, inputs, timeout=40):
    """0 = fine, 1 = misbehaves (confirmed), 2 = undecided; plus text"""
    cmd = [nat, 'run'] + [str(x) for x in inputs]; r, o = sh(cmd, timeout)
    if r == 0: return 0, o
    if r in (11, 12): return 2, o
    if r == -999: return 1, o + '\nthe call does not return (hang)'
    return 1, o
def confirm(j, v):
    if v['kind'] == 'compile':
        try: compile_nat(j); v['native'] = []; return False
        except CompileError as e: v['native'] = [{'cmd': 'compile', 'verdict': 1, 'out': str(e)[:3000]}]; return True
    nat = compile_nat(j); v['native'] = []
    r, o = replay(nat, v['inputs']); v['native'].append({'cmd': 'run with ' + j.get('san', 'asan'), 'verdict': r, 'out': o[-3000:]})
    if r == 1: return True
    if j.get('threads'):
        n2 = compile_nat(j, 'tsan'); r, o = replay(n2, v['inputs'], 60); v['native'].append({'cmd': 'run with tsan', 'verdict': r, 'out': o[-3000:]})
        return r == 1
    n2 = compile_nat(j, 'plain'); c = ['valgrind', '-q', '--error-exitcode=13', '--undef-value-errors=yes', n2, 'run'] + [str(x) for x in v['inputs']]; r, o = sh(c, 120); v['native'].append({'cmd': 'valgrind', 'verdict': r, 'out': o[-3000:]})
    return r not in (0, 11, 12)
def known():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    for l in (open(p) if os.path.exists(p) else []):
        m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', l.strip())
        if m: out.append(m.groups())
    return out

def run(prop, tier):
    t0 = time.time(); P = PROPS[prop]; names = list(P['quick']) + (list(P.get('thorough', [])) if tier == 'thorough' else [])
    symex = engine(); d = os.path.join(V, 'build', prop + '-' + tier); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    budget = (700 if tier == 'quick' else 5400)
    jobs = [mkjob(n, d, SEED) for n in names]; rtbc = d + '/rt.bc'
    def rt():
        r, o = sh(['clang++-18', '-std=c++17', '-w', '-I' + V + '/harness'] + BOOST + ['-DBOOST_ENABLE_ASSERT_HANDLER', '-D_GLIBCXX_ASSERTIONS'] + IRF + [V + '/harness/rt.cpp', '-o', rtbc])
        if r: raise CompileError(o)
    pool = ThreadPoolExecutor(NCPU); frt = pool.submit(rt); fir = [pool.submit(compile_ir, j) for j in jobs]; fnat = [pool.submit(compile_nat, j) for j in jobs]
    confirmed = []; kn = known(); knhit = []; nconf = [0, 0]
    def judge(j, vs, built=None):
        for v in vs[:3]:
            key = '%s | %s | %s' % (v['kind'], v['msg'], v['loc'])
            k = next((x for x in kn if x[0] == prop and re.search(x[1], key)), None)
            if k: knhit.append(k[2]); continue
            if built: built.result()
            if confirm(j, v):
                f = os.path.join(V, 'build', 'replay-%s-%s-%d.json' % (prop, tier, nconf[0])); json.dump({'property': prop, 'job': j['name'], 'seed': SEED, 'repo': REPO, 'violation': v}, open(f, 'w'), indent=1); confirmed.append((f, v)); return
            nconf[0] += 1; notes.append('job %s: counterexample not confirmed natively: %s inputs %s' % (j['name'], key, v['inputs']))
        nconf[1] += 1
    tot = {}; viol = []; fns = set(); samples = []; notes = []; res = []; status = 0; fbatch = []
    def bump(k, x): tot[k] = tot.get(k, 0) + x
    def batch(j, f):
        nat = f.result(); r, o = sh([nat, 'batch', j['dir'] + '/r.json.samples'], 300); return j, r, o
    try:
        frt.result()
        bad = None
        for j, fi, fn in zip(jobs, fir, fnat):
            try: fi.result()
            except CompileError as e:
                if not j.get('compiles'): raise
                bad = bad or (j, str(e)); continue
            left = budget - (time.time() - t0)
            if left < 5: notes.append('job %s skipped: time budget used up' % j['name']); continue
            lim = min(left, j.get('time', 200) * (5 if tier == 'thorough' else 1))
            cmd = [symex, j['dir'] + '/c.bc', rtbc, '--out', j['dir'] + '/r.json', '--procs', str(NCPU), '--time', str(int(lim)), '--seed', str(SEED), '--samples', str(j.get('samples', 40 if tier == 'quick' else 200))] + j.get('sym', '').split() + (j.get('symt', '').split() if tier == 'thorough' else [])
            r, o = sh(cmd, lim + 120)
            if r not in (0, 1, 2): notes.append('job %s: symbolic executor: %s' % (j['name'], o[-500:])); status = 3; continue
            R = json.load(open(j['dir'] + '/r.json')); res.append((j, R)); fns |= set(R['functions'])
            for k in ('paths', 'forks', 'instructions', 'steps', 'asserts', 'symbolic_asserts', 'queries', 'solver_calls', 'sat', 'unsat', 'solver_s', 'checkpoints', 'states', 'bounded', 'pruned'): bump(k, R[k])
            vs = R['violations']
            print('job %-14s states %d%s paths %d queries %d solver calls %d  %.1fs%s' % (j['name'], R['states'] or R['hstates'] or R.get('inner_states') or R['paths'], (' (%d cut at the bound)' % R['bounded']) if R['bounded'] else '', R['paths'], R['queries'], R['solver_calls'], R['wall_s'], '' if R['complete'] else '  [incomplete]'), flush=True)
            if R['complete']:
                miss = [x for x in j.get('require', []) if x not in R['reach']]
                if miss: notes.append('job %s: situations never reached: %s' % (j['name'], miss)); print('WARNING ' + notes[-1]); status = status or 2
            fbatch.append(pool.submit(batch, j, fn))
            if vs: judge(j, vs, fn)
            if confirmed or nconf[1] > 3: break
        if bad: viol.append((bad[0], {'kind': 'compile', 'msg': 'a documented use of the library is rejected by the compiler', 'loc': next((l for l in bad[1].splitlines() if 'error:' in l), ''), 'inputs': [], 'stack': []}))
        val = ndiv = 0
        for f in fbatch:
            j, r, o = f.result(); m = re.search(r'BATCH (\d+) (\d+)', o)
            if m: val += int(m.group(2))
            for l in o.splitlines():
                m = re.match(r'MISMATCH status=(-?\d+) line=\S+ \d+ ?(.*)', l)
                if not m: continue
                ins = [int(x) for x in m.group(2).split()]
                if int(m.group(1)) in (11, 12):
                    ndiv += 1; status = status or 2
                    if ndiv <= 5: notes.append('job %s: native run differs from the symbolic run for inputs %s' % (j['name'], ins))
                else: viol.append((j, {'kind': 'native', 'msg': 'the natively compiled code misbehaves on a sampled run', 'loc': '', 'inputs': ins, 'stack': []}))
            if r not in (0, 1): notes.append('job %s: native validation ended with %s' % (j['name'], r)); status = status or 2
    except CompileError as e:
        print(str(e)[-3000:]); print('cannot compile a harness against the current tree'); pool.shutdown(cancel_futures=True); return 2
    for j, v in viol[:6]:
        if not confirmed: judge(j, [v])
    if nconf[0]: status = status or 2
    for k in sorted(set(knhit)): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    pool.shutdown()
    for j, R in res:
        try:
            for l in open(j['dir'] + '/r.json.samples').read().splitlines()[:2]: samples.append({'job': j['name'], 'observation_hash': l.split()[0], 'operations': int(l.split()[1]) if int(l.split()[1]) < 1 << 31 else 'until destruction', 'inputs': [int(x) for x in l.split()[2:]]})
        except OSError: pass
    cov = {'states': int(sum(R['states'] + R.get('inner_states', 0) or R['hstates'] or R['paths'] for _, R in res)), 'transitions': int(tot.get('steps', 0)), 'traces_validated_against_impl': val, 'samples': samples[:12],
      'paths': int(tot.get('paths', 0)), 'assertions_decided': int(tot.get('asserts', 0)), 'assertions_with_symbols': int(tot.get('symbolic_asserts', 0)), 'queries_discharged': int(tot.get('queries', 0)), 'solver_calls': int(tot.get('solver_calls', 0)), 'solver_sat': int(tot.get('sat', 0)), 'solver_unsat': int(tot.get('unsat', 0)), 'solver_seconds': round(tot.get('solver_s', 0), 3), 'ir_instructions': int(tot.get('instructions', 0)),
      'functions_encoded_count': len(fns), 'functions_encoded': sorted({re.sub(r'<.*', '', re.sub(r'\(.*', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', x)))))) for x in fns}),
      'exhaustive': bool(res) and all(R['complete'] and not R['bounded'] for _, R in res) and len(res) == len(jobs),
      'jobs': [{'job': j['name'], 'what': j.get('what', ''), 'chart': j.get('chart', j.get('source')), 'bounds': j.get('flags', '') + ' ' + j.get('sym', ''), 'closed': R['complete'] and not R['bounded'], 'states': R['states'] or R.get('inner_states', 0), 'cut_at_bound': R['bounded'], 'depth': R['depth'], 'paths': R['paths'], 'operations': R['steps'], 'queries': R['queries'], 'solver_calls': R['solver_calls'], 'solver_s': R['solver_s'], 'wall_s': R['wall_s'], 'situations_reached': len(R['reach'])} for j, R in res], 'notes': notes, 'bounds': P.get('bounds', ''), 'counterexample_replayed': [v['native'] for _, v in confirmed]}
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'model_checking', 'coverage': cov, 'assumptions': P.get('assume', []) + COMMON, 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for n in notes: print('NOTE ' + n)
    for f, v in confirmed:
        print('  %s: %s\n  at %s' % (v['kind'], v['msg'], v['loc'])); print('VIOLATION property=%s replay=%s' % (prop, f))
    if confirmed: return 1
    print('%s %s: %s, %.1fs' % (prop, tier, 'no violation' if not status else 'UNDECIDED', time.time() - t0)); return status
COMMON = ['The symbolic executor (engine/) interprets the LLVM IR clang 18 makes of the headers; its memory, exception and solver semantics are trusted, and sampled paths are re-run natively (g++, sanitizers) and compared', 'Charts, events and operation menus are those of the listed jobs; states are merged when memory, symbolic values and constraints are equal up to renaming of addresses and symbols', 'Standard containers are interpreted from libstdc++ headers; their out-of-line parts, the heap and the C++ runtime are models']

def do_replay(f):
    x = json.load(open(f)); d = os.path.join(V, 'build', 'replay'); os.makedirs(d, exist_ok=True); global SEED; SEED = x['seed']; j = mkjob(x['job'], d, SEED)
    v = x['violation']; ok = confirm(j, v); print(json.dumps(v['native'], indent=1)); print('reproduced' if ok else 'not reproduced'); return 1 if ok else 0
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'setup': engine(); sys.exit(0)
    if a[0] == 'replay': sys.exit(do_replay(a[1]))
    if a[0] == 'job':
        d = os.path.join(V, 'build', 'job'); os.makedirs(d, exist_ok=True); e = engine(); j = mkjob(a[1], d, SEED); compile_ir(j)
        subprocess.call(['clang++-18', '-std=c++17', '-w', '-I' + V + '/harness'] + BOOST + ['-DBOOST_ENABLE_ASSERT_HANDLER', '-D_GLIBCXX_ASSERTIONS'] + IRF + [V + '/harness/rt.cpp', '-o', d + '/rt.bc'])
        r = subprocess.call([e, j['dir'] + '/c.bc', d + '/rt.bc', '--out', j['dir'] + '/r.json', '--procs', str(NCPU)] + j.get('sym', '').split() + a[2:])
        R = json.load(open(j['dir'] + '/r.json')); print({k: R[k] for k in R if k not in ('functions', 'violations')}); [print(v['kind'], v['msg'], v['loc'], v['inputs'], *v['stack'][:14], sep='\n   ') for v in R['violations'][:4]]; sys.exit(r)
    sys.exit(run(a[0], (a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))))
