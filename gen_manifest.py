#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
P = [json.loads(x) for x in open('properties.jsonl')]
D = json.load(open('levels.json'))
checks = []
for p in P:
    i = p['id']
    d = D.get(i, D['default'])
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': d['technique'], 'level': d['level'],
                   'level_note': d['note']})
json.dump({'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable': [],
           'notes': 'see DESIGN.md'}, open('MANIFEST.json', 'w'), indent=1)
