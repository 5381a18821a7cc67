#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_YET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'hooks': {'guard': 'WB_VERIF_HOOKS', 'enable': 'not used: /repo carries no hooks, monitors observe it from outside '
              '(simulated ports, clock, MQTT and RPC peers)', 'source_commits': []},
    'checks': [],
    'not_applicable': [],
    'notes': 'Each check builds its harness from /repo\'s working tree (tools/vbuild.py), runs seeded cases in 8 worker '
             'processes under ASan+UBSan (S06: TSan) and judges monitors\' and sanitizers\' reports (tools/check.py).',
}
for i in ids:
    c = CHECKS.get(i)
    if not c:
        m['not_applicable'].append({'property': i, 'reason': NOT_YET.get(i, 'no check built yet')})
        continue
    m['checks'].append({
        'property': i,
        'quick_cmd': 'python3 tools/check.py %s quick' % i,
        'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
        'technique': c['technique'],
        'level': 'exploration',
        'level_note': c['note'],
    })
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
