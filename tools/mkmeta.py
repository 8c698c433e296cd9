#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_text.py (development aid)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props_text import PROPS, NA
lines, checks, na = [], [], []
for p in PROPS + NA:
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}))
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
    if os.path.exists(os.path.join(H, 'props', p['id'].lower() + '.py')):
        checks.append({'property': p['id'], 'quick_cmd': f'python3-vt check.py {p["id"]} --tier quick',
                       'thorough_cmd': f'python3-vt check.py {p["id"]} --tier thorough',
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
for p in NA:
    na.append({'property': p['id'], 'reason': p['reason']})
open(os.path.join(H, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import ast"', 'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(lines), 'properties', len(checks), 'checks', len(na), 'n/a')
