"""Driver of the generator checks: runs the targets of one module with CrossHair in parallel, confirms counterexamples with plain Python, writes the evidence."""
import ast, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
PY = 'python3-vt' if any(os.access(os.path.join(p, 'python3-vt'), os.X_OK) for p in os.environ.get('PATH', '').split(':')) else '/opt/veriftools/pyvenv/bin/python3'


def run(a, V, mod):
    t0 = time.time()
    d = os.path.join(V, 'gen')
    env = dict(os.environ, VF_REPO=a.repo, VF_TIER=a.tier, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    base = [PY, '-W', 'ignore', os.path.join(d, 'worker.py')]
    r = subprocess.run([PY, '-W', 'ignore', '-c', 'import sys; sys.path.insert(0, %r); import %s as m, json; print("T " + json.dumps([m.TARGETS, m.FUNCTIONS]))' % (d, mod)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    line = [l for l in r.stdout.split('\n') if l.startswith('T ')]
    if not line:
        print('ERROR cannot load the generator: ' + r.stdout[-2000:]); return 2
    targets, functions = json.loads(line[0][2:])
    col = 2 if a.tier == 'thorough' else 1
    todo = [(n, t[col]) for n, t in targets.items() if t[col] and (not a.run or n == a.run)]

    def one(t):
        try:
            p = subprocess.run(base + [mod, t[0], str(t[1])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=t[1] * 1.6 + 60)
            l = [x for x in p.stdout.split('\n') if x.startswith('RESULT ')]
            return json.loads(l[0][7:]) if l else dict(target=t[0], state='CRASH', messages=[p.stderr[-1500:]], stats={}, paths=0, seconds=0, args=None)
        except subprocess.TimeoutExpired:
            return dict(target=t[0], state='TIMEOUT', messages=['no answer in time'], stats={}, paths=0, seconds=t[1], args=None)
    with ThreadPoolExecutor(a.procs) as ex:
        res = list(ex.map(one, todo))
    viol, notes, tot, confirmed = 0, [], {}, 0
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    for x in res:
        for k, v in x['stats'].items():
            tot[k] = max(tot.get(k, 0), v) if k == 'z3max' else tot.get(k, 0) + v
        x['bounds'] = targets[x['target']][0]
        print('%s/%s: %s, %d paths, %d queries, %.1f s' % (a.prop, x['target'], x['state'], x['paths'], x['stats'].get('queries', 0), x['seconds']))
        if x['state'] == 'CONFIRMED':
            continue
        if x['args'] and x['args'] != 'None':
            q = subprocess.run(base + ['--replay', mod, x['target'], x['args']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=120)
            if q.returncode:
                rp = os.path.join(V, 'replays', '%s-%s.txt' % (a.prop, x['target']))
                with open(rp, 'w') as f:
                    f.write('property %s\nsolver %s\nreplay: VF_REPO=%s %s gen/worker.py --replay %s %s "%s"\n--- plain Python execution (exit %d)\n%s%s' % (a.prop, x['messages'], a.repo, PY, mod, x['target'], x['args'], q.returncode, q.stdout, q.stderr[-3000:]))
                viol += 1; confirmed += 1
                print('VIOLATION property=%s replay=%s' % (a.prop, rp))
                print('  ' + (q.stdout.strip() or q.stderr.strip()[-300:]))
                continue
            notes.append('%s: counterexample %s does not fail in plain Python, ignored (%s)' % (x['target'], x['args'], x['messages']))
        else:
            notes.append('%s: %s %s' % (x['target'], x['state'], x['messages'][:2]))
    # validation of the engine: the same functions run with plain Python on concrete inputs
    ev = {'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': viol,
          'coverage': {'states': int(sum(x['paths'] for x in res)), 'transitions': int(tot.get('queries', 0)), 'traces_validated_against_impl': confirmed,
                       'samples': [dict(target=x['target'], result=x['messages']) for x in res][:6],
                       'what_the_counts_mean': 'states: symbolic paths through the real generator; transitions: solver queries; traces_validated: counterexamples re-run with plain Python',
                       'solver_queries': int(tot.get('queries', 0)), 'sat': int(tot.get('sat', 0)), 'unsat': int(tot.get('unsat', 0)), 'unknown': int(tot.get('unknown', 0)), 'solver_seconds': round(tot.get('z3time', 0), 2), 'longest_query_seconds': round(tot.get('z3max', 0), 3),
                       'functions_encoded': functions, 'targets': res, 'exhaustive_within_bounds': not notes and not viol},
          'assumptions': ['CrossHair 0.0.112 executes the real Python functions symbolically; its models of str, re and containers and Z3 are trusted; counterexamples are confirmed with plain Python',
                          'files, messages and process exit of the generator are replaced (gen/base.py)']}
    if notes:
        ev['coverage']['not_decided'] = notes
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for n in notes:
        print('NOTE not decided: ' + n[:1500])
    if viol:
        return 1
    if not any(x['state'] == 'CONFIRMED' for x in res):
        print('ERROR nothing was decided'); return 2
    print('OK property=%s (%d targets confirmed, %.1f s)' % (a.prop, sum(x['state'] == 'CONFIRMED' for x in res), time.time() - t0))
    return 0
