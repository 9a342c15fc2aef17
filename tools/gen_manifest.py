"""Writes /verif/MANIFEST.json from the contract modules present."""
import json, os, sys, importlib
sys.path.insert(0, '/verif')
PROPS = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
NA = {}
for p in PROPS:
    pid = p['id']
    f = '/verif/contracts/%s.py' % pid.lower()
    if not os.path.exists(f) or pid in NA:
        na.append(dict(property=pid, reason=NA.get(pid, 'contracts for this property are not written yet')))
        continue
    m = importlib.import_module('contracts.' + pid.lower())
    checks.append(dict(property=pid, quick_cmd='python3-vt check.py %s' % pid, thorough_cmd='python3-vt check.py %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid,
                       technique=getattr(m, 'TECHNIQUE', 'contract-based deductive verification: path-wise weakest-precondition obligations generated from the /repo source, discharged by z3/cvc5/sympy'),
                       level=getattr(m, 'LEVEL', 'proof'), level_note=m.NOTE))
d = dict(version=1, setup_cmd='mkdir -p evidence && python3-vt -m compileall -q pvc contracts', checks=checks, not_applicable=na)
json.dump(d, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
