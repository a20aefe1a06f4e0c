#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the checks that exist."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
notes = json.load(open(here + '/tools/level_notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (here, i.lower())) and i in notes:
        t, l, n = notes[i]
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python run.py %s quick' % i,
            'thorough_cmd': '/opt/venv/bin/python run.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': t, 'level': l, 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'no check has been built yet'})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks: the checks drive the code through its settings, its '
              'position and input set-up functions, the solve entry point of '
              'the existing test and its command line.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
