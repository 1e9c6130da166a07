#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from table import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None},
        }, ensure_ascii=False) + '\n')
checks = []
for p in PROPS:
    checks.append({
        'property': p['id'],
        'quick_cmd': f"./check.sh {p['id']} quick",
        'thorough_cmd': f"./check.sh {p['id']} thorough",
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    })
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': []},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
