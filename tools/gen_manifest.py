#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from components.py and the texts below.
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import components
from notes import NOTES, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
checks = []
for p in props:
    if p in components.CHECKS:
        tech, note = NOTES[p]
        checks.append({'property': p, 'quick_cmd': f'./check {p} quick', 'thorough_cmd': f'./check {p} thorough',
                       'technique': tech, 'level': components.CHECKS[p][0], 'level_note': note})
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'check not built yet')} for p in props if p not in components.CHECKS]
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'VERIF_HOOKS', 'enable': 'no hooks are needed: the drivers observe the public API and interpose atomics and system calls at link time',
               'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
