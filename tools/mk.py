#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (properties whose check file exists are claimed)."""
import glob
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS

checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['all']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None},
        }) + '\n')
        have = glob.glob(os.path.join(V, 'checks', p['id'].lower() + '_*.py'))
        if have:
            checks.append({
                'property': p['id'],
                'quick_cmd': f"./check {p['id']}",
                'thorough_cmd': f"./check {p['id']} --thorough",
                'evidence_file': f"evidence/{p['id']}.json",
                'technique': p['technique'],
                'level': p.get('level', 'exploration'),
                'level_note': p['note'],
            })
        else:
            na.append({'property': p['id'], 'reason': p.get('na', 'check under construction')})
doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: every check drives public seams of the unmodified code. '
                'Repairs are the "fix:" commits listed in known_findings.jsonl.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(na), 'not claimed')
