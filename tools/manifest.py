#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and checks/specs.py (NA: reasons for properties without a check)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks.specs import SPECS, NA
TECH = "symbolic execution of the implementation's LLVM bitcode (all dispatch/scheduling choices and inputs symbolic), assertions decided by Z3 within bounds"
NOTE = ("Every path of the real code within the bounds is executed symbolically and every assertion is decided by the solver for all input values on it; "
        "counterexamples are replayed against the natively compiled code. Bounds: %s. Trusted: the engine, the models of the C/C++ runtime in rt/ and clang's lowering to bitcode.")
checks, na = [], []
for line in open(root + '/properties.jsonl'):
    pid = json.loads(line)['id']
    if pid in SPECS:
        s = SPECS[pid]
        b = s.get('bounds') or '; '.join(r['bounds'] for r in s.get('runs', []) if r.get('bounds')) or 'the machine structures, event counts and value ranges written in the harness (see DESIGN.md)'
        checks.append(dict(property=pid, quick_cmd='python3 check.py %s' % pid, thorough_cmd='python3 check.py %s --tier thorough' % pid,
                           evidence_file='evidence/%s.json' % pid, technique=s.get('technique', TECH), level='model_checking', level_note=s.get('note') or NOTE % b))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='make -s -C engine -j8', checks=checks, not_applicable=na,
               notes='No hooks in /repo: harnesses are compiled against the unmodified sources, and private members are reached through the base classes\' protected interface. check.py builds the engine when setup_cmd was not run.'),
          open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
