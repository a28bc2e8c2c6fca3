#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from checks/props.py (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
from props import P, NA
from jobs import PROPS
HOOKS = ['4f6ea8f']
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': p.get('hook')}}, ensure_ascii=False) + '\n')
ids = [p['id'] for p in P]
checks = []
for i in ids:
    if i in NA: continue
    assert i in PROPS, i
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
        'technique': 'symbolic execution of the compiled LLVM IR, assertions decided by SMT (z3)', 'level': 'model_checking',
        'level_note': 'Holds for every value within the bounds: ' + PROPS[i]['bounds'] + '. Outside: ' + PROPS[i].get('outside', '-') + '. Trusts rustc/LLVM, the IR executor and z3; counterexamples are replayed natively before being reported.'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'cfg(verif)', 'enable': 'check.py builds the harness crates, and with them /repo, with RUSTFLAGS containing --cfg verif', 'source_commits': HOOKS}, 'checks': checks,
     'not_applicable': [{'property': i, 'reason': r} for i, r in NA.items()],
     'notes': 'The harness crates use the public API, and one hook (the groups an engine generator has made). Two-stage: engine/ (symbolic executor of LLVM IR) and harness/ (crates with a path dependency on /repo).'}
for i in NA: assert i in ids, i
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(ids), 'properties', len(checks), 'checks', len(NA), 'not applicable')
