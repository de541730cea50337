#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/seed/bugs/*.py style specs: plant.py FILE (defines BUGS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo, sh=None)})."""
import json, os, shutil, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for bid, b in ns['BUGS'].items():
    if only and bid not in only: continue
    d = root + '/seeded/' + bid; os.makedirs(d, exist_ok=True)
    w = '/tmp/plantw'; shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    os.makedirs(w); subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + w, shell=True)
    subprocess.check_call('git init -q . && git add -A -f && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=w)
    for f, old, new in b['edits']:
        s = open(w + '/' + f).read(); assert s.count(old) == 1, (bid, f, s.count(old), old); open(w + '/' + f, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=w, text=True); open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(root + '/tools/seed/demo.sh', d + '/demo.sh'); shutil.copy(root + '/tools/seed/d.hpp', d + '/d.hpp')
    if b.get('sh'): open(d + '/demo.sh', 'w').write(b['sh'])
    for n, t in b.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
    if b.get('demo'): open(d + '/demo.cpp', 'w').write(b['demo'])
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
    # original lines only
    print(bid, 'ok')
