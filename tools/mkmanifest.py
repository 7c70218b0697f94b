#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the list of claimed checks below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: VCs generated from the real C++ AST, discharged by matrix-ring normaliser + z3'
CLAIMED = json.load(open(os.path.join(H, 'tools', 'claimed.json')))
NA = {
    'P22': 'convergence of a floating-point iteration is a liveness/asymptotic statement that no function contract within reach expresses (see DESIGN.md)',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick',
                            'thorough_cmd': f'python3 check.py {i} --tier thorough', 'technique': TECH,
                            'level': 'proof', 'level_note': CLAIMED[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m['notes'] = 'No hooks are needed in /repo. See DESIGN.md.'
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
