#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules in props/"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(HERE, 'props', p.lower() + '.py')):
        tech, note = NOTES[p]
        checks.append(dict(property=p, quick_cmd='python3 run.py %s --tier quick' % p,
                           thorough_cmd='python3 run.py %s --tier thorough' % p,
                           technique=tech, level='exploration', level_note=note))
    else:
        na.append(dict(property=p, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
