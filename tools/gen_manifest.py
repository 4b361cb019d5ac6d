#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks that exist, and why the other properties are not claimed."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
STATE = 'explicit-state model checking of the implementation against an abstract model'
ENUM = 'exhaustive bounded enumeration of inputs on the implementation against an independent reference'
C = json.load(open(here + '/checks.json'))
checks, na = [], []
for p in props:
    c = C.get(p['id'])
    if not c or 'why_not' in c:
        na.append({'property': p['id'], 'reason': (c or {}).get('why_not', 'no check built yet')})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                   'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': na}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
