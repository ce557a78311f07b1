#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
sys.dont_write_bytecode = True
import harness, checks
from props import PROPS, NA, NOTES

with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p.get('state', [])],
                        'observe_at': p['obs'], 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -c "import sys"', 'checks': [], 'not_applicable': [], 'notes': NOTES}
for p in PROPS:
    i = p['id']
    if i in harness.CHECKS:
        m = harness.CHECKS[i]
        man['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': 'static analysis: ' + m.technique, 'level': 'other',
            'level_note': p['note']})
    else:
        man['not_applicable'].append({'property': i, 'reason': NA[i]})
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(man['checks']), 'checks,', len(man['not_applicable']), 'not applicable')
