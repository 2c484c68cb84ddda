#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.py (one source for statements, techniques and reasons)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        assert len(p['title']) <= 80, p['title']
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in PROPS:
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                        'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
for p in NOT_APPLICABLE:
    m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
m['notes'] = 'Static analysis only: tool/sgx.cpp (clang libTooling) lowers every function of the library to flow graphs; lib/ and rules/ decide the properties on them. No hooks in /repo.'
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
