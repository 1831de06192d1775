#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/prop_table.py (claimed = present in bx/props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from prop_table import TABLE, NA, NOTES
from bx.props import PROPS
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for t in TABLE:
        f.write(json.dumps({'id': t['id'], 'title': t['title'], 'statement': t['statement'],
                            'quantifier': {'over': t['over'], 'text': t['qtext']}, 'why_tests_cant': t['why'],
                            'anchors': {'files': t['files'], 'mechanism': [{'name': a, 'where': b} for a, b in t['mech']],
                                        'observe_at': t.get('observe', [])}}) + '\n')
        assert len(t['title']) <= 80, t['title']
checks, na = [], []
for t in TABLE:
    p = t['id']
    if p in PROPS:
        checks.append({'property': p, 'quick_cmd': 'python3 /verif/check.py %s quick' % p, 'thorough_cmd': 'python3 /verif/check.py %s thorough' % p,
                       'technique': PROPS[p]['technique'], 'level': PROPS[p].get('level', 'other'), 'level_note': PROPS[p]['note']})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no static check yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 /verif/tools/setup.py', 'checks': checks, 'not_applicable': na, 'notes': NOTES},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
