#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the job tables."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import jobs
ps = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in ps:
    i = p['id']
    if i not in jobs.P:
        na.append({'property': i, 'reason': jobs.NA.get(i, 'no check yet') if hasattr(jobs, 'NA') else 'no check yet'})
        continue
    s = jobs.P[i]
    n = len([j for j in s.jobs if j.tier == 'quick'])
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s quick' % i,
        'thorough_cmd': 'python3 check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the crate\'s LLVM IR with an SMT solver (z3), counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': 'Every path of %d bounded harness instances (%d in the thorough run) over the compiled crate; inputs are symbolic bytes, every branch and assertion is decided by the solver. %s' % (n, len(s.jobs), ('Outside: ' + '; '.join(s.outside) + '.') if s.outside else 'Bounds are listed in the evidence.'),
    })
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
