#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property by symbolic execution of /repo's current code.

Builds the executor and the bitcode of /repo's working tree in a scratch directory, runs the property's harness entries,
replays counterexamples natively (real libxml2, AddressSanitizer) and writes evidence/<property>.json.
Exit 0: held within the bounds (or undecided parts, which are named); exit 1: a reproduced violation."""
import sys, os, json, subprocess, shutil, tempfile, hashlib, time, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, V)
import specs

T0 = time.time()
def log(*a): print('[%6.1f]' % (time.time() - T0), *a, flush=True)
def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors='replace', **kw)

SRC = None      # source root used for compilation
def prepare_sources(scratch):
    """parts/yaep.[ch] are generated from yaep/src by the build; regenerate them when yaep/src is not what it was."""
    global SRC
    C = REPO + '/src/main/c'
    SRC = C
    h = hashlib.sha256()
    for root, ds, fs in os.walk(C + '/yaep'):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            if '/src' in root or f == 'build_single_yaep_source_file.sh':
                h.update(os.path.relpath(p, C).encode()); h.update(open(p, 'rb').read())
    base = open(V + '/tools/yaep.sha256').read().strip()
    if h.hexdigest() == base and os.path.exists(C + '/parts/yaep.c'): return
    log('yaep/src differs from the committed baseline: regenerating parts/yaep.[ch] in scratch')
    S = scratch + '/c'
    shutil.copytree(C, S)
    r = run(['bash', './build_single_yaep_source_file.sh'], cwd=S + '/yaep')
    if r.returncode == 0 and os.path.getsize(S + '/parts/yaep.c') > 1000: SRC = S
    else: log('could not regenerate yaep:', r.stdout[-300:])

CF = '-O1 -g -ffp-contract=off -fno-vectorize -fno-slp-vectorize -fno-pic -fno-unroll-loops -w -DPLATFORM_POSIX -DLINUX64 -DVERSION="v"'.split()
CF = [c.replace('"v"', '"v"') for c in CF]
def incs(): return ['-I' + SRC, '-I' + SRC + '/parts', '-I/usr/include/libxml2', '-I' + V + '/rt', '-I' + V + '/harness']

def build_engine(scratch):
    key = hashlib.sha256(b''.join(open(V + '/engine/' + f, 'rb').read() for f in sorted(os.listdir(V + '/engine')))).hexdigest()[:16]
    cache = V + '/.cache/sxe-' + key
    if os.path.exists(cache): return cache
    E = V + '/engine'
    def cc(args): 
        r = run(args)
        if r.returncode: raise RuntimeError('engine build failed: ' + r.stdout[-2000:])
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(cc, ['g++', '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-D_GNU_SOURCE', '-I/usr/lib/llvm-18/include', '-c', E + '/loader.cpp', '-o', scratch + '/loader.o'])
        b = ex.submit(cc, ['g++', '-O2', '-std=c++17', '-fno-rtti', '-w', '-c', E + '/sxe.cpp', '-o', scratch + '/sxe.o'])
        a.result(); b.result()
    cc(['g++', '-o', scratch + '/sxe', scratch + '/loader.o', scratch + '/sxe.o', '/usr/lib/llvm-18/lib/libLLVM.so', '-lz3', '-lpthread'])
    try:
        os.makedirs(V + '/.cache', exist_ok=True)
        shutil.copy(scratch + '/sxe', cache + '.tmp%d' % os.getpid()); os.rename(cache + '.tmp%d' % os.getpid(), cache)
    except OSError: pass
    return scratch + '/sxe'

def bc(scratch, src, out, extra=()):
    r = run(['clang'] + CF + list(extra) + incs() + ['-emit-llvm', '-c', src, '-o', scratch + '/' + out])
    if r.returncode: raise RuntimeError('compile of %s failed: %s' % (src, r.stdout[-1500:]))
    return scratch + '/' + out

NFLAGS = '-O0 -g -w -fno-omit-frame-pointer -DPLATFORM_POSIX -DLINUX64 -DVERSION="v" -DSX_NATIVE=1'.split()
def san(mode): return ['-fsanitize=address', '-fno-sanitize-recover=all', '-DSX_ASAN'] if mode == 'asan' else []
def native_obj(scratch, src, o, extra):
    r = run(['clang'] + NFLAGS + extra + incs() + ['-c', src, '-o', o])
    if r.returncode: raise RuntimeError('native compile failed: ' + r.stdout[-1500:])
    return o
def native_build(scratch, f, tier, mode, builds):
    """native replay binary of a harness file with the real libxml2; mode: asan | plain"""
    exe = '%s/native-%s-%s' % (scratch, f, mode)
    h = native_obj(scratch, V + '/harness/' + f, exe + '-h.o', san(mode) + ['-DTIER=%d' % (tier == 'thorough')])
    if ('xmq', mode) not in builds: builds[('xmq', mode)] = native_common(scratch, mode)
    objs = [h] + builds[('xmq', mode)]
    r = run(['clang', '-rdynamic'] + san(mode) + objs + ['-o', exe, '-lxml2', '-lxslt', '-lexslt', '-lm', '-ldl'])
    if r.returncode: r = run(['clang', '-rdynamic'] + san(mode) + objs + ['-o', exe, '-lxml2', '-lm', '-ldl'])
    if r.returncode: raise RuntimeError('native link failed: ' + r.stdout[-1500:])
    return exe
def native_common(scratch, mode):
    with ThreadPoolExecutor(2) as e:
        a = e.submit(native_obj, scratch, SRC + '/xmq.c', '%s/nx-%s.o' % (scratch, mode), san(mode))
        b = e.submit(native_obj, scratch, V + '/rt/sx_native.c', '%s/nr-%s.o' % (scratch, mode), san(mode))
        return [a.result(), b.result()]

def native_exe(scratch, job, tier, mode, builds):
    key = (job['file'], mode)
    if key not in builds:
        try: builds[key] = native_build(scratch, job['file'], tier, mode, builds)
        except Exception as e: builds[key] = None; log('native build:', str(e)[-400:])
    return builds[key]

def write_inputs(path, inputs, head=''):
    with open(path, 'w') as f:
        f.write(head)
        for a, b in inputs: f.write('in %s %s\n' % (a, b))

def validate(scratch, job, tier, samples, builds):
    """Run witness inputs of explored paths on the native build: the encoding and the real code must agree that they pass."""
    exe = native_exe(scratch, job, tier, 'asan', builds)
    if not exe: return 0, []
    bad = []; n = 0
    def one(k):
        p = '%s/sample-%s-%d' % (scratch, job['entry'], k); w = p + '.d'; os.mkdir(w)
        write_inputs(p, samples[k])
        env = dict(os.environ, SX_REPLAY=p, SX_ENTRY=job['entry'], ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1', HOME=w, LC_ALL='C')
        try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=w, timeout=20)
        except subprocess.TimeoutExpired: return (samples[k], 'timeout')
        return None if r.returncode == 0 else (samples[k], 'exit %d %s' % (r.returncode, r.stdout.decode('utf8', 'replace')[-300:]))
    with ThreadPoolExecutor(8) as ex:
        for x in ex.map(one, range(len(samples))):
            n += 1
            if x: bad.append(x)
    return n, bad

def replay(scratch, job, tier, v, path, builds):
    """Does the real code misbehave on this input?  Returns (reproduced, text)"""
    mode = 'plain' if v['kind'] == 'uninitialised' else 'asan'
    exe = native_exe(scratch, job, tier, mode, builds)
    if not exe: return False, 'native build failed'
    work = tempfile.mkdtemp(dir=scratch)
    env = dict(os.environ, SX_REPLAY=path, SX_ENTRY=job['entry'], ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0', HOME=work, LC_ALL='C')
    cmd = [exe]
    if mode == 'plain': cmd = ['valgrind', '-q', '--error-exitcode=98', exe]
    to = 20 if v['kind'] != 'uninitialised' else 60
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=work, preexec_fn=os.setsid)
    try:
        out, _ = p.communicate(timeout=to); rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); rc = 'timeout'
    out = out.decode('utf8', 'replace')
    if rc == 'timeout': return v['kind'] in ('hang', 'deep-recursion', 'assert'), 'timeout after %d s' % to
    if rc in (70, 71): return False, 'replay input rejected by the harness (%s)' % rc
    if rc == 0: return False, 'replay passed'
    return True, 'exit %s: %s' % (rc, ' | '.join([l for l in out.splitlines() if 'SX-' in l or 'ERROR' in l or 'SUMMARY' in l or 'ssert' in l or '== ' in l][:4]))

def main():
    if sys.argv[1] == 'setup':
        d = tempfile.mkdtemp(prefix='sxv-'); build_engine(d); shutil.rmtree(d, ignore_errors=True); return
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    only = sys.argv[3:]      # development: restrict to these entries
    spec = specs.PROPS[pid]
    known = [k for k in json.load(open(V + '/known_findings.json')) if k.get('property') == pid and k.get('status', 'known') == 'known']
    scratch = tempfile.mkdtemp(prefix='sxv-')
    evd = V + '/evidence'; os.makedirs(evd, exist_ok=True)
    rc = 0
    try: rc = decide(pid, tier, only, spec, known, scratch, evd)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def decide(pid, tier, only, spec, known, scratch, evd):
    prepare_sources(scratch)
    jobs = [j for j in spec['jobs'] if (tier in j.get('tiers', ('quick', 'thorough'))) and (not only or j['entry'] in only)]
    files = sorted({j['file'] for j in jobs})
    errors = []
    with ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine, scratch)
        base = [ex.submit(bc, scratch, SRC + '/xmq.c', 'xmq.bc'), ex.submit(bc, scratch, V + '/rt/sxxml.c', 'sxxml.bc'), ex.submit(bc, scratch, V + '/rt/sxlc.c', 'sxlc.bc', ['-fno-builtin'])]
        nc = ex.submit(native_common, scratch, 'asan')
        hf = {f: ex.submit(bc, scratch, V + '/harness/' + f, f + '.bc', ['-DTIER=%d' % (tier == 'thorough')]) for f in files}
        sxe = fe.result()
        mods = {}
        try: bb = [b.result() for b in base]
        except Exception as e: bb = None; errors.append(str(e))
        for f in files:
            try:
                h = hf[f].result()
                if bb:
                    r = run(['llvm-link', '-o', scratch + '/' + f + '.l.bc', h] + bb)
                    if r.returncode: raise RuntimeError('link of %s: %s' % (f, r.stdout[-800:]))
                    mods[f] = scratch + '/' + f + '.l.bc'
            except Exception as e: errors.append(str(e))
    log('built')
    for e in errors: log('NOT-DECIDED:', e)
    budget = float(os.environ.get('SX_BUDGET', spec.get('budget', {}).get(tier, 420 if tier == 'quick' else 800)))
    total = {k: 0 for k in ('paths', 'forks', 'z3_queries', 'z3_sat', 'z3_unsat', 'z3_unknown', 'solver_seconds', 'query_cache_hits', 'byte_domain_decisions', 'assertions_checked', 'assertions_symbolic', 'path_conditions_rechecked_by_z3', 'instructions')}
    res, violations, unrepro, knownhit, funcs, undecided = [], [], [], {}, set(), list(errors)
    builds = {}
    try: builds[('xmq', 'asan')] = nc.result()
    except Exception as e: log(str(e)[-300:])
    nrep = 0; validated = 0; allsamples = []
    for n, j in enumerate(jobs):
        if j['file'] not in mods: continue
        left = budget - (time.time() - T0)
        t = min(j.get('time', {}).get(tier, 1e9), max(5, left if n == len(jobs) - 1 else left * 0.7))
        out = scratch + '/' + j['entry'] + '.json'
        cmd = [sxe, mods[j['file']], j['entry'], '--threads', '8', '--time', '%.1f' % t, '--out', out, '--first', '--grace', '2', '--max-instr', str(j.get('max_instr', 2000000))] + j.get('args', [])
        try: r = run(cmd, timeout=t + 60)
        except subprocess.TimeoutExpired: undecided.append(j['entry'] + ': executor did not stop'); continue
        if r.returncode or not os.path.exists(out): undecided.append('%s: executor failed: %s' % (j['entry'], r.stdout[-300:])); log('NOT-DECIDED:', undecided[-1]); continue
        d = json.load(open(out))
        smp = d['samples'][-12:]
        if j.get('validate', True) and smp:
            nv, vb = validate(scratch, j, tier, smp, builds)
            validated += nv - len(vb)
            for inp, t_ in vb: undecided.append('%s: the native build disagrees with the encoding on %s: %s' % (j['entry'], [(a, bytes.fromhex(b)) for a, b in inp], t_))
        for inp in d['samples'][-2:]: allsamples.append({'entry': j['entry'], 'witness_input': [[a, b] for a, b in inp]})
        for k in total: total[k] += d[k]
        funcs |= {f for f in d['functions'] if not f.startswith(('sx', 'h_'))}
        missing = [l for l in j.get('reach', []) if not d['reached'].get(l)]
        bad = d['violations']
        st = 'held' if d['complete'] and not missing else 'incomplete'
        if d['timed_out'] and not bad: undecided.append('%s: stopped by the time limit with %d branches unexplored' % (j['entry'], d['pending']))
        for p in d['problems']: undecided.append('%s: %s (%d)' % (j['entry'], p, d['problems'][p]))
        if missing and not bad: undecided.append('%s: vacuity: label(s) never reached: %s' % (j['entry'], missing))
        rj = {'entry': j['entry'], 'bounds': j['bounds'][tier] if isinstance(j['bounds'], dict) else j['bounds'], 'complete': d['complete'], 'paths': d['paths'], 'pending': d['pending'], 'wall': d['wall'], 'z3_queries': d['z3_queries'], 'assertions_checked': d['assertions_checked'], 'reached': {k: v for k, v in d['reached'].items()}}
        for v in d['violations']:
            if v['known']:
                m = [k for k in known if k['id'] == v['known'] and v['kind'] in k.get('kinds', [v['kind']]) and (not k.get('funcs') or v['func'] in k['funcs'])]
                if m:
                    knownhit.setdefault(v['known'], (m[0], v)); continue
            nrep += 1
            if nrep > 12: continue
            path = '%s/replay-%s-%s-%d.txt' % (evd, pid, j['entry'], nrep)
            with open(path, 'w') as f:
                f.write('# property %s entry %s (harness/%s) kind %s: %s at %s:%s\n' % (pid, j['entry'], j['file'], v['kind'], v['msg'], v['func'], v['line']))
                f.write('# stack %s\n' % ' < '.join(v['stack']))
                for a, b in v['inputs']: f.write('in %s %s\n' % (a, b))
            ok, txt = replay(scratch, j, tier, v, path, builds)
            log('%s %s: %s at %s:%s inputs %s -> %s' % ('REPRODUCED' if ok else 'not reproduced', v['kind'], v['msg'], v['func'], v['line'], [(a, bytes.fromhex(b)) for a, b in v['inputs']][:6], txt[:300]))
            with open(path, 'a') as f: f.write('# native replay: %s\n' % txt)
            if ok: violations.append((path, v)); st = 'violated'
            else: unrepro.append('%s: %s: %s at %s:%s (%s)' % (j['entry'], v['kind'], v['msg'], v['func'], v['line'], txt[:200])); undecided.append('%s: counterexample did not reproduce natively: %s' % (j['entry'], v['msg']))
        rj['result'] = st; res.append(rj)
        log('%s: %s paths=%d pending=%d wall=%.1f z3=%d %s' % (j['entry'], st, d['paths'], d['pending'], d['wall'], d['z3_queries'], 'missing %s' % missing if missing else ''))
        if violations: break
        if time.time() - T0 > budget and n + 1 < len(jobs): undecided.append('time budget used up before: ' + ', '.join(x['entry'] for x in jobs[n + 1:])); break
    for k, (f, v) in sorted(knownhit.items()): print('KNOWN-FINDING: property=%s %s %s' % (pid, k, f['what']))
    for u in undecided: log('NOT-DECIDED:', u)
    expl = ('Symbolic execution of the LLVM bitcode compiled from the current sources of /repo: every path through the encoded functions within the '
            'bounds is enumerated by forking on symbolic branch conditions, each branch/assertion decided by Z3 (bit-vectors) or, for conditions over one '
            'input byte, by the exact 256-value domain of that byte; states = feasible paths, transitions = branch forks plus solver-refuted branches.')
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': spec.get('level', 'model_checking'),
          'coverage': {'states': total['paths'], 'transitions': total['forks'] + total['z3_unsat'], 'traces_validated_against_impl': validated, 'samples': allsamples[:12],
                       'exhaustive': not undecided, 'explanation': expl,
                       'result': 'violated' if violations else ('held within the stated bounds' if not undecided else 'no violation; partly undecided'),
                       'functions_encoded': sorted(funcs), 'bounds': [{'entry': r['entry'], 'bounds': r['bounds'], 'result': r['result'], 'paths': r['paths'], 'wall_s': r['wall']} for r in res],
                       'queries_discharged': total['z3_queries'] + total['path_conditions_rechecked_by_z3'], 'solver_seconds': round(total['solver_seconds'], 2),
                       'totals': total, 'undecided': undecided, 'known_findings_seen': sorted(knownhit),
                       'outside': spec.get('outside', ''),
                       'violations': [{'replay': p, 'kind': v['kind'], 'msg': v['msg'], 'func': v['func']} for p, v in violations]},
          'assumptions': spec.get('assumptions', []) + specs.ASSUMPTIONS, 'wall_s': round(time.time() - T0, 1), 'violations': len(violations)}
    json.dump(ev, open('%s/%s.json' % (evd, pid), 'w'), indent=1)
    if violations:
        for p, v in violations: print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    log('%s: no violation' % pid)
    return 0
if __name__ == '__main__': main()
