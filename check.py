#!/usr/bin/env python3
"""Decide one property of hsmcpp by symbolic execution of its LLVM bitcode (see DESIGN.md).

usage: check.py <property> [--tier quick|thorough] [--run NAME] [--keep] [--repo DIR] [-v]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (error, time-out, incomplete)
"""
import sys, os, json, time, shutil, subprocess, tempfile, argparse, re, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)

CORE = ['hsm', 'HsmImpl', 'HsmImplTypes', 'variant', 'HsmEventDispatcherBase', 'os/common/LockGuard', 'os/common/UniqueLock', 'os/common/CriticalSection',
        'os/posix/InterruptsFreeSection', 'os/stl/ConditionVariable', 'os/stl/AtomicFlag']
CONFIGS = {
    # name: (repo sources, defines, extra include dirs, C++ standard)
    'core': (CORE, ['-DHSM_LOGGING_MODE_OFF', '-DHSM_ENABLE_SAFE_STRUCTURE'], [], 'c++11'),
    'unsafe': (CORE, ['-DHSM_LOGGING_MODE_OFF'], [], 'c++11'),
    'std': (CORE + ['HsmEventDispatcherSTD'], ['-DHSM_LOGGING_MODE_OFF', '-DHSM_ENABLE_SAFE_STRUCTURE'], [], 'c++11'),
    'debug': (CORE, ['-DHSM_LOGGING_MODE_OFF', '-DHSM_ENABLE_SAFE_STRUCTURE', '-DHSMBUILD_DEBUGGING'], ['stubs/fs'], 'c++17'),
    'variant': (['variant'], ['-DHSM_LOGGING_MODE_OFF'], [], 'c++11'),
    'locks': (['os/common/LockGuard', 'os/common/UniqueLock', 'os/common/CriticalSection', 'os/posix/InterruptsFreeSection', 'os/stl/ConditionVariable', 'os/stl/AtomicFlag'], ['-DHSM_LOGGING_MODE_OFF'], [], 'c++11'),
    'arduino': (['HsmEventDispatcherArduino', 'HsmEventDispatcherBase', 'os/common/LockGuard', 'os/common/UniqueLock', 'os/common/CriticalSection', 'os/arduino/InterruptsFreeSection', 'os/arduino/ConditionVariable', 'os/arduino/AtomicFlag'],
                ['-DHSM_LOGGING_MODE_OFF', '-DPLATFORM_ARDUINO', '-include', os.path.join(V, 'stubs/arduino/pre.h')], ['stubs/arduino'], 'c++11'),
    'glib': (['HsmEventDispatcherGLib', 'HsmEventDispatcherBase', 'os/common/LockGuard', 'os/common/UniqueLock', 'os/common/CriticalSection', 'os/posix/InterruptsFreeSection', 'os/stl/ConditionVariable', 'os/stl/AtomicFlag'],
             ['-DHSM_LOGGING_MODE_OFF', '-include', os.path.join(V, 'stubs/glib/pre.h')], ['stubs/glib'], 'c++11'),
    'glibmm': (['HsmEventDispatcherGLibmm', 'HsmEventDispatcherBase', 'os/common/LockGuard', 'os/common/UniqueLock', 'os/common/CriticalSection', 'os/posix/InterruptsFreeSection', 'os/stl/ConditionVariable', 'os/stl/AtomicFlag'],
               ['-DHSM_LOGGING_MODE_OFF', '-include', os.path.join(V, 'stubs/std.h')], ['stubs/glibmm'], 'c++17'),
    'qt': (['HsmEventDispatcherQt', 'HsmEventDispatcherBase', 'os/common/LockGuard', 'os/common/UniqueLock', 'os/common/CriticalSection', 'os/posix/InterruptsFreeSection', 'os/stl/ConditionVariable', 'os/stl/AtomicFlag'],
           ['-DHSM_LOGGING_MODE_OFF', '-include', os.path.join(V, 'stubs/std.h')], ['stubs/qt'], 'c++17'),
    'freertos': (['HsmEventDispatcherFreeRTOS', 'HsmEventDispatcherBase', 'os/common/LockGuard', 'os/common/UniqueLock', 'os/common/CriticalSection', 'os/freertos/InterruptsFreeSection', 'os/freertos/ConditionVariable', 'os/freertos/AtomicFlag', 'os/freertos/Mutex', 'os/freertos/FreeRtosPort'],
                 ['-DHSM_LOGGING_MODE_OFF', '-DPLATFORM_FREERTOS', '-include', os.path.join(V, 'stubs/std.h')], ['stubs/freertos'], 'c++17'),
    'debug': (CORE, ['-DHSM_LOGGING_MODE_OFF', '-DHSM_ENABLE_SAFE_STRUCTURE', '-DHSMBUILD_DEBUGGING'], ['stubs/fs'], 'c++17'),
    'base': (['HsmEventDispatcherBase', 'os/common/LockGuard', 'os/common/UniqueLock', 'os/common/CriticalSection', 'os/posix/InterruptsFreeSection', 'os/stl/ConditionVariable', 'os/stl/AtomicFlag'], ['-DHSM_LOGGING_MODE_OFF'], [], 'c++11'),
}
WRAPS = ['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE', 'pthread_cond_wait', 'pthread_cond_clockwait',
         'pthread_cond_timedwait', '_ZNSt18condition_variable10notify_allEv', '_ZNSt18condition_variable10notify_oneEv', 'sched_yield', '_ZNSt6chrono3_V212steady_clock3nowEv',
         '_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE', '_ZNSt6thread4joinEv', '_ZNSt6thread6detachEv', 'pthread_self', 'clock_nanosleep', 'nanosleep', 'usleep', 'clock_gettime']
IR_FLAGS = ['-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-Wno-everything', '-fno-threadsafe-statics']
NAT_FLAGS = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined', '-Wno-everything', '-fno-omit-frame-pointer']


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def ensure_engine():
    sx = os.path.join(V, 'build', 'sx')
    os.makedirs(os.path.join(V, 'build'), exist_ok=True)
    with open(os.path.join(V, 'build', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['make', '-C', os.path.join(V, 'engine'), '-j8'])
    if r.returncode or not os.path.exists(sx):
        log(r.stdout[-4000:]); log('ERROR: engine does not build'); sys.exit(2)
    return sx


class Build:
    """Bitcode module and native replay program of one harness over the current /repo tree."""

    def __init__(self, work, repo, run, pool):
        self.work, self.repo, self.run, self.pool = work, repo, run, pool
        cfg = run.get('config', 'core')
        srcs, defs, incs, std = CONFIGS[cfg] if isinstance(cfg, str) else cfg
        self.srcs = [os.path.join(repo, 'src', s + '.cpp') for s in srcs] + [s if s.startswith('/') else os.path.join(V, s) for s in run.get('extra', [])]
        self.cov = ['-fsanitize-coverage=func,trace-loads,trace-stores'] if run.get('watch') else []
        self.key = '%s|%s|%s' % (cfg, run.get('defines'), run.get('watch'))
        self.flags = ['-std=' + std] + defs + run.get('defines', []) + sum([['-I', os.path.join(V, i)] for i in incs], []) + \
            ['-I', os.path.join(repo, 'include'), '-I', os.path.join(repo, 'src'), '-I', os.path.join(V, 'rt'), '-I', os.path.join(V, 'harness')]
        self.hsrc = os.path.join(V, 'harness', run['harness'])

    cache = {}

    def obj(self, src, kind, extra=()):
        k = (self.key if src.startswith(self.repo) or '/verif/stubs' in src else self.run['harness'] + self.key + str(extra), src, kind)
        if k in Build.cache:
            return Build.cache[k]
        n = len(Build.cache)
        out = os.path.join(self.work, '%s_%d.%s' % (os.path.basename(src).replace('.cpp', ''), n, 'bc' if kind == 'ir' else 'o'))
        fl = list(self.flags)
        if '-include' in fl and src.startswith(os.path.join(V, 'rt') + os.sep):
            i = fl.index('-include'); del fl[i:i + 2]   # the runtime is compiled without the target's prefix header
        if kind == 'ir':
            cmd = ['clang++'] + fl + list(extra) + IR_FLAGS + ['-emit-llvm', '-c', src, '-o', out]
        else:
            cmd = ['clang++'] + fl + list(extra) + NAT_FLAGS + ['-c', src, '-o', out]

        def go():
            r = sh(cmd)
            if r.returncode and 'error:' not in r.stdout.replace('clang++: error:', '').replace('clang: error:', ''):
                r = sh(cmd)   # the compiler itself was ended or crashed: once more
            if r.returncode:
                raise RuntimeError('compile failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
            return out
        Build.cache[k] = self.pool.submit(go)
        return Build.cache[k]

    def start_ir(self):
        self.irf = [self.obj(s, 'ir') for s in self.srcs] + [self.obj(self.hsrc, 'ir', ['-std=c++17'])] + [self.obj(os.path.join(V, 'rt', 'rt.cpp'), 'ir', ['-std=c++17', '-fno-builtin'])]

    def start_native(self):
        self.nf = [self.obj(s, 'nat', self.cov) for s in self.srcs] + [self.obj(self.hsrc, 'nat', ['-std=c++17'] + self.cov)] + [self.obj(os.path.join(V, 'rt', 'native.cpp'), 'nat', ['-std=c++17', '-fno-sanitize=undefined'])] + \
            ([self.obj(os.path.join(V, 'rt', 'containers.cpp'), 'nat', ['-std=c++17', '-fno-sanitize=undefined'] + self.cov)] if self.cov else [])

    def module(self):
        out = os.path.join(self.work, 'mod_%s.bc' % re.sub(r'\W', '_', self.run['name']))
        r = sh(['llvm-link-18'] + [f.result() for f in self.irf] + ['-o', out])
        if r.returncode:
            raise RuntimeError('llvm-link failed: ' + r.stdout[-3000:])
        return out

    def native(self):
        out = os.path.join(self.work, 'nat_%s' % re.sub(r'\W', '_', self.run['name']))
        if not os.path.exists(out):
            r = sh(['clang++', '-fsanitize=address,undefined', '-fno-sanitize=vptr'] + [f.result() for f in self.nf] + ['-Wl,--wrap=' + w for w in WRAPS] + ['-lpthread', '-o', out])
            if r.returncode:
                raise RuntimeError('native link failed: ' + r.stdout[-3000:])
        return out


def parse_parts(d):
    st, reach, funcs, models, errs, viols, samples, cuts = {}, set(), {}, set(), [], {}, [], {}
    for f in sorted(os.listdir(d)):
        if not f.startswith('part.'):
            continue
        blk = None
        for l in open(os.path.join(d, f), errors='replace'):
            l = l.rstrip('\n')
            if blk is not None:
                if l == 'END':
                    body = '\n'.join(blk[1:])
                    if blk[0] == 'error':
                        errs.append(body)
                    elif blk[0].startswith('viol'):
                        m = re.search(r'^msg (.*)$', body, re.M)
                        k = m.group(1) if m else '?'
                        viols.setdefault(k, [0, body])
                        viols[k][0] += int(blk[0].split()[1])
                    else:
                        samples.append(body)
                    blk = None
                else:
                    blk.append(l)
                continue
            t = l.split(' ')
            if t[0] == 'BEGIN':
                blk = [' '.join(t[1:])]
            elif t[0] == 'stat':
                st[t[1]] = st.get(t[1], 0) + int(t[2])
            elif t[0] == 'max':
                st[t[1]] = max(st.get(t[1], 0), int(t[2]))
            elif t[0] == 'fstat':
                st[t[1]] = st.get(t[1], 0.0) + float(t[2])
            elif t[0] == 'fmax':
                st[t[1]] = max(st.get(t[1], 0.0), float(t[2]))
            elif t[0] == 'reach':
                reach.add(l[6:])
            elif t[0] == 'func':
                funcs[t[1]] = t[2] if len(t) > 2 else ''
            elif t[0] == 'model':
                models.add(t[1])
            elif t[0] == 'cut':
                cuts[' '.join(t[1:-1])] = cuts.get(' '.join(t[1:-1]), 0) + int(t[-1])
    return dict(stats=st, reach=reach, funcs=funcs, models=models, errors=errs, viols=viols, samples=samples, cuts=cuts)


def native_run(exe, body, params, work, tag):
    p = os.path.join(work, 'in_%s.txt' % tag)
    with open(p, 'w') as f:
        for k, v in params.items():
            f.write('param %s %d\n' % (k, v))
        f.write('\n'.join(l for l in body.split('\n') if l.startswith('in ')) + '\n')
    env = dict(os.environ, VF_TMP=work, ASAN_OPTIONS='exitcode=78:detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:symbolize=0', UBSAN_OPTIONS='exitcode=78:print_stacktrace=0:symbolize=0')
    try:
        r = subprocess.run([exe, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=40, env=env)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 'hang', '', 'time-out'


def load_known():
    known = {}
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+key=`([^`]*)`\s*(.*)', l)
            if m:
                known.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--run'); ap.add_argument('--keep', action='store_true')
    ap.add_argument('--repo', default='/repo'); ap.add_argument('-v', action='store_true'); ap.add_argument('--procs', type=int, default=8); ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--param', action='append', default=[]); ap.add_argument('--timeout', type=float)
    a = ap.parse_args()
    from checks.specs import SPECS
    spec = SPECS[a.prop]
    t0 = time.time()
    if spec.get('driver'):
        return spec['driver'](a, V)
    sx = ensure_engine()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='vf_%s_' % a.prop, dir='/tmp')
    pool = ThreadPoolExecutor(8)
    tot, allv, errs, funcs, models, samples_out, runs_out = {}, [], [], {}, set(), [], []
    validated = mismatched = 0
    known = load_known().get(a.prop, [])
    violated = False; nviol = 0; known_seen = set()
    rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True)
    try:
        runs = [r for r in spec['runs'] if (not a.run or r['name'] == a.run) and (a.tier == 'thorough' or not r.get('thorough_only'))]
        builds = []
        for r in runs:
            b = Build(work, a.repo, r, pool); b.start_ir(); builds.append(b)
        if not a.no_native:
            for b in builds:
                b.start_native()
        for r, b in zip(runs, builds):
            tr = time.time()
            params = dict(r.get('params', {}))
            if a.tier == 'thorough':
                params.update(r.get('thorough', {}))
            for kv in a.param:
                k, v = kv.split('='); params[k] = int(v)
            out = os.path.join(work, 'out_' + re.sub(r'\W', '_', r['name'])); os.makedirs(out)
            try:
                mod = b.module()
            except RuntimeError as e:
                errs.append(str(e)); continue
            tmo = a.timeout or (r.get('timeout', 500) if a.tier == 'quick' else r.get('ttimeout', 850))
            cmd = [sx, '--out', out, '--timeout', str(tmo), '--procs', str(a.procs), '--samples', str(r.get('samples', 5)), '--solver-ms', '60000'] + sum([['--param', '%s=%d' % kv] for kv in params.items()], []) + [mod]
            p = sh(cmd, env=dict(os.environ, VERIF_SEED=str(seed)))
            res = parse_parts(out)
            s = res['stats']
            done = open(os.path.join(out, 'done')).read() if os.path.exists(os.path.join(out, 'done')) else 'missing'
            if a.v or p.returncode not in (0,):
                log(p.stdout[-3000:])
            funcs.update(res['funcs']); models |= res['models']
            for k, v in s.items():
                tot[k] = max(tot.get(k, 0), v) if k in ('steps', 'z3max') else tot.get(k, 0) + v
            for e in res['errors']:
                errs.append('%s: %s' % (r['name'], e))
            if p.returncode or not done.startswith('complete'):
                errs.append('%s: engine ended abnormally (%s, %s)' % (r['name'], p.returncode, done.strip()))
            if s.get('paths_time'):
                errs.append('%s: time limit: %d states not explored' % (r['name'], s['paths_time']))
            # violations: confirm natively
            unconfirmed = []
            confirmed_new = 0
            for key, (cnt, body) in sorted(res['viols'].items()):
                tag = '%s_%d' % (a.prop, len(allv))
                kf = next((k for k in known if k[0] == key), None)
                code, so, se = ('skipped', '', '') if a.no_native else native_run(b.native(), body, params, work, tag)
                ok = a.no_native or code in (77, 78, 79, 'hang') or (isinstance(code, int) and code < 0)
                rp = os.path.join(rdir, '%s-%s-%d.txt' % (a.prop, r['name'], len(allv)))
                with open(rp, 'w') as f:
                    f.write('property %s\nrun %s harness %s\nviolation %s\nnative exit %s\n' % (a.prop, r['name'], r['harness'], key, code))
                    for k, v in params.items():
                        f.write('param %s %d\n' % (k, v))
                    f.write(body + '\n--- native replay output\n' + so[-4000:] + se[-6000:])
                allv.append(key)
                if not ok:
                    unconfirmed.append('%s (native exit %s) %s' % (key, code, rp)); continue
                if kf:
                    if key not in known_seen:
                        log('KNOWN-FINDING: property=%s %s' % (a.prop, key)); known_seen.add(key)
                    continue
                violated = True; nviol += 1; confirmed_new += 1
                log('VIOLATION property=%s replay=%s' % (a.prop, rp)); log('  ' + key + '  (%d paths; native exit %s)' % (cnt, code))
            if unconfirmed and not confirmed_new:
                for u in unconfirmed:
                    errs.append('%s: counterexample did not reproduce natively: %s' % (r['name'], u))
            # vacuity
            missing = [x for x in r.get('reach', ['end']) if x not in res['reach']]
            if missing and not res['viols'] and not res['errors'] and not s.get('paths_time') and done.startswith('complete'):
                rp = os.path.join(rdir, '%s-%s-reach.txt' % (a.prop, r['name']))
                with open(rp, 'w') as f:
                    f.write('property %s run %s: behaviour never reached although it must be possible: %s\nreached: %s\n' % (a.prop, r['name'], missing, sorted(res['reach'])))
                log('VIOLATION property=%s replay=%s' % (a.prop, rp)); log('  no input or schedule within the bounds reaches: ' + ', '.join(missing))
                violated = True; nviol += 1
            # translation validation: completed symbolic paths against the native build
            if not a.no_native:
                sel = res['samples'][:]
                import random
                random.Random(seed).shuffle(sel)
                for i, body in enumerate(sel[:r.get('validate', 10)]):
                    code, so, se = native_run(b.native(), body, params, work, 's%d' % i)
                    exp = [l for l in body.split('\n') if l.startswith('tr ')]
                    got = [l for l in so.split('\n') if l.startswith('tr ')]
                    if code == 0 and exp == got and 'end ok' in so and 'UNUSED' not in so:
                        validated += 1
                    else:
                        mismatched += 1
                        rp = os.path.join(rdir, '%s-%s-mismatch-%d.txt' % (a.prop, r['name'], i))
                        open(rp, 'w').write(body + '\n--- native exit %s\n%s\n%s' % (code, so, se))
                        errs.append('%s: native run differs from the symbolic path (exit %s) see %s' % (r['name'], code, rp))
                    if i < 2:
                        samples_out.append({'run': r['name'], 'inputs': [l[3:] for l in body.split('\n') if l.startswith('in ')][:60], 'observations': [l[3:] for l in exp][:40]})
            runs_out.append({'run': r['name'], 'harness': 'harness/' + r['harness'], 'bounds': r.get('bounds', ''), 'params': params, 'witnesses': sorted(res['reach']), 'seconds': round(time.time() - tr, 1),
                             'paths': s.get('paths_ok', 0), 'infeasible_assumption_paths': s.get('paths_assume', 0), 'violating_paths': s.get('paths_viol', 0), 'complete': not s.get('paths_time') and done.startswith('complete')})
            log('%s/%s: %d paths, %d states, %.1fM instructions, %d queries (%d z3), %d assertions by solver, %d folded, %.1f s' % (
                a.prop, r['name'], s.get('paths_ok', 0), s.get('forks', 0) + 1, s.get('insts', 0) / 1e6, s.get('queries', 0), s.get('z3calls', 0), s.get('assertq', 0), s.get('assertconc', 0), time.time() - tr))
        repo_funcs = sorted(f for f, loc in funcs.items() if loc.startswith(a.repo + '/'))
        ev = {
            'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
            'coverage': {
                'states': int(tot.get('forks', 0) + len(runs_out)), 'transitions': int(tot.get('insts', 0)), 'traces_validated_against_impl': validated, 'samples': samples_out[:6],
                'what_the_counts_mean': 'states: symbolic states created (one per path prefix chosen by the solver); transitions: LLVM IR instructions executed symbolically; traces_validated: completed symbolic paths re-run on the sanitized native build with identical observations',
                'paths_completed': int(tot.get('paths_ok', 0)), 'paths_cut_by_assumption': int(tot.get('paths_assume', 0)),
                'solver_queries': int(tot.get('queries', 0)), 'queries_sent_to_z3': int(tot.get('z3calls', 0)), 'sat': int(tot.get('sat', 0)), 'unsat': int(tot.get('unsat', 0)), 'unknown': int(tot.get('unknown', 0)),
                'solver_seconds': round(tot.get('z3time', 0.0), 2), 'longest_query_seconds': round(tot.get('z3max', 0.0), 3), 'assertions_decided_by_solver': int(tot.get('assertq', 0)), 'assertions_folded_on_path': int(tot.get('assertconc', 0)),
                'branches_on_uninitialised_data': int(tot.get('tainted', 0)), 'schedule_choice_points': int(tot.get('sched', 0)), 'functions_encoded': repo_funcs, 'functions_encoded_count': len(repo_funcs),
                'environment_models_used': sorted(models), 'runs': runs_out, 'exhaustive_within_bounds': not errs and not violated,
            },
            'assumptions': spec.get('assumptions', []) + ['bitcode of clang 18 -O1 (C++11 build of the library, logging off) stands for the compiled library', 'z3 4.8.12 answers and this executor are trusted; sampled paths are re-run natively under ASan/UBSan'],
        }
        if errs:
            ev['coverage']['errors'] = errs[:20]
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', a.prop + '.json'), 'w'), indent=1)
    finally:
        pool.shutdown(wait=True)
        if a.keep:
            log('work dir ' + work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    if violated:
        return 1
    if errs:
        for e in errs[:10]:
            log('ERROR ' + e[:2500])
        return 2
    log('OK property=%s (%d paths, %d validated natively, %.1f s)' % (a.prop, tot.get('paths_ok', 0), validated, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
