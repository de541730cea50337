#!/usr/bin/env python3
# Runs the checks of planted changes against patched copies: seedtest.py [ID...]; prints caught/missed per change.
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = '/tmp/seedt-%d' % os.getpid(); shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True); subprocess.run(['git', '-C', d, 'apply', '%s/seeded/%s/patch.diff' % (V, i)], check=True)
    p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']; t = time.time()
    r = subprocess.run(['python3', V + '/check.py', p, '--repo', d], capture_output=True, text=True)
    vio = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%-45s %s %s %.0fs %s' % (i, p, 'CAUGHT' if r.returncode == 1 and vio else 'MISSED rc=%d' % r.returncode, time.time() - t, (r.stdout + r.stderr).strip().splitlines()[-1][:150]), flush=True)
    shutil.rmtree(d, ignore_errors=True)
