#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for each property that checks/props.py decides."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
import props
TECH = 'TLA+ specification model checked with TLC; its behaviours replayed into the Go code and compared'
TECHS = {}
NOTES = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in props.CHECKS:
        checks.append({'property': p, 'quick_cmd': 'python3 checks/run.py ' + p,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + p,
                       'technique': TECHS.get(p, TECH), 'level': 'model_checking', 'level_note': NOTES[p]})
    else:
        na.append({'property': p, 'reason': 'the check is not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the harness uses only the public API of the packages and recorded readers and writers.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
