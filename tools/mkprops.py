#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'],
                                        'hook_needed': None}}) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': './run.sh ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + p['id'],
                 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in PROPS if p['id'] not in na],
     'not_applicable': NOT_APPLICABLE,
     'notes': 'No hooks in /repo: the driver (harness/driver) enters the build through go build -overlay. See DESIGN.md.'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
