#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/texts.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from texts import PROPS, NA, NOTES  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + [n for n in NA if 'statement' in n]:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
man = {'version': 1,
       'setup_cmd': 'python3 tools/setup.py',
       'checks': [{'property': p['id'],
                   'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']} for p in PROPS],
       'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA],
       'notes': NOTES}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'claimed,', len(NA), 'not applicable')
