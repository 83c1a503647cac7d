#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NA
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier',
                               'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py',
     'checks': [{'property': p['id'],
                 'quick_cmd': 'python3 check.py ' + p['id'],
                 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' +
                                 p['id'],
                 'technique': p['technique'], 'level': 'other',
                 'level_note': p['level_note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                        for p in NA]}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
