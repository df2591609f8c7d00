#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import props, checks
TECH = 'symbolic execution of the LLVM IR of the real code; SMT (Z3, cvc5) decides each assertion; counterexamples replayed natively'
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
m = dict(version=1, setup_cmd='./check setup', checks=[], not_applicable=[])
for p in props.P:
    if p['_na']: m['not_applicable'].append(dict(property=p['id'], reason=p['_na'])); continue
    c = checks.CHECKS[p['id']]
    m['checks'].append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check %s --tier thorough' % p['id'], technique=c.get('technique', TECH), level='model_checking',
      level_note=(p['_note'] or 'Holds for all values, histories and schedules within the bounds below; nothing is claimed outside them.') + ' Bounds: ' + c['bounds'] + '. Trusts the executor, its C/C++ run-time models and the SMT solvers; sampled paths are replayed natively against the real build.'))
m['notes'] = 'Engine: /verif/engine (LLVM IR symbolic executor). The encoding is regenerated from /repo on every run. Known findings and repaired defects: known_findings.txt.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
for p in props.P:
    assert len(p['title']) <= 80, p['id']
    assert p['_na'] or p['id'] in checks.CHECKS, p['id']
assert not set(checks.CHECKS) - {p['id'] for p in props.P}
