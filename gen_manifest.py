#!/usr/bin/env python3
"""Write MANIFEST.json from plan.py and properties.jsonl."""
import json, plan
props = [json.loads(l) for l in open('properties.jsonl')]
checks = []
for p in props:
    if p['id'] not in plan.PLAN: continue
    P = plan.PLAN[p['id']]
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
        'technique': 'symbolic execution of the LLVM IR of the real code with Z3 (bounded, all paths), counterexamples replayed natively',
        'level': P.get('level', 'model_checking'),
        'level_note': 'Holds for every input within the bounds: ' + P['bounds'] + ('. Outside: ' + P['outside'] if P.get('outside') else '') + '. Trusts rustc/LLVM, the engine\'s IR semantics (sampled paths are replayed natively each run) and Z3.',
    })
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': plan.NA[p['id']]} for p in props if p['id'] not in plan.PLAN],
     'notes': 'No hooks in /repo: every check drives the public API. See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(m['not_applicable']), 'not applicable')
