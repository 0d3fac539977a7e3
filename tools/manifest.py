#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (run by hand when a property changes)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__)); R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
from properties import PROPS
with open(f'{R}/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks: every check observes the public interfaces only', 'source_commits': []},
     'checks': [{'property': p['id'], 'quick_cmd': f"./check {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough ./check {p['id']}", 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in PROPS if not p.get('na')],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p.get('na')]}
json.dump(m, open(f'{R}/MANIFEST.json', 'w'), indent=1); open(f'{R}/MANIFEST.json', 'a').write('\n')
