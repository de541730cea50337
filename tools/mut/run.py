#!/usr/bin/env python3
# Mutation campaign: run.py FILE [-p PROCS] [NAME...]; runs each mutant's check against a patched copy of /repo.
import sys, subprocess, shutil, time, os
V = '/verif'; ns = {}; exec(open(sys.argv[1]).read(), ns); args = sys.argv[2:]; procs = '8'
if args[:1] == ['-p']: procs = args[1]; args = args[2:]
for name, prop, edits in ns['M']:
    if args and name not in args: continue
    d = '/tmp/mut-%d' % os.getpid(); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + d, shell=True); subprocess.check_call('git init -q . && git add -A -f && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=d)
    bad = False
    for f, old, new in edits:
        s = open(d + '/' + f).read()
        if s.count(old) != 1: print('%-28s EDIT FAILS %s count=%d' % (name, f, s.count(old)), flush=True); bad = True; break
        open(d + '/' + f, 'w').write(s.replace(old, new))
    if bad: continue
    for p in prop.split():
        t = time.time(); r = subprocess.run(['python3', V + '/check.py', p, '--repo', d, '--procs', procs], capture_output=True, text=True)
        vio = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        last = (r.stdout + r.stderr).strip().splitlines()[-1:] or ['']
        print('%-28s %s %s %.0fs %s' % (name, p, 'CAUGHT' if r.returncode == 1 and vio else 'MISSED rc=%d' % r.returncode, time.time() - t, '' if vio else last[0][:160]), flush=True)
shutil.rmtree('/tmp/mut-%d' % os.getpid(), ignore_errors=True)
