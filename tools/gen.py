#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the property part of DESIGN.md from tools/props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import P  # noqa: E402
try:
    from props import NA, NOTES  # noqa: E402
except ImportError:
    NA, NOTES = [], ''
import re
lines, checks, doc = [], [], []
for x in sorted(P, key=lambda x: x['id']):
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
    assert len(re.findall(r'[.](?:\s|$)', x['statement'])) <= 3, (x['id'], 'sentences')
    q = {'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']},
         'why_tests_cant': x['why'], 'anchors': {'files': x['files'], 'mechanism': x['mech']}}
    if x['state']:
        q['anchors']['state'] = x['state']
    if x['observe']:
        q['anchors']['observe_at'] = x['observe']
    lines.append(json.dumps(q))
    if x.get('na'):
        continue
    checks.append({'property': x['id'], 'quick_cmd': f"python3 check.py {x['id']}", 'thorough_cmd': f"python3 check.py {x['id']} --tier thorough",
                   'technique': 'static analysis: ' + x['tech'], 'level': 'other', 'level_note': x['note']})
    doc.append(f"### {x['id']} {x['title']}\n\n{x['statement']}\n\n- Decided by (`rules/{x['id'].lower()}.py`): {x['how']}\n- Bounds: {x['note']}\n- Beyond tests: {x['why']}\n")
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 9)"', 'checks': checks,
       'not_applicable': [{'property': a, 'reason': b} for a, b in NA], 'notes': NOTES}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
d = os.path.join(V, 'DESIGN.md')
if os.path.exists(d):
    t = open(d).read()
    a, b = '<!-- properties -->', '<!-- end of properties -->'
    if a in t:
        i, j = t.index(a) + len(a), t.index(b)
        open(d, 'w').write(t[:i] + '\n\n' + '\n'.join(doc) + '\n' + t[j:])
print(len(lines), 'properties', len(checks), 'checks')
