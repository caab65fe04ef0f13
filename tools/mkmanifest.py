#!/usr/bin/env python3
"""Source of MANIFEST.json: every property with a checks/<id>.py is claimed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
        n = NOTES.get(i, {})
        checks.append({'property': i, 'quick_cmd': f'python3 run.py {i} --tier quick', 'thorough_cmd': f'python3 run.py {i} --tier thorough',
                       'technique': n.get('technique', 'property-based testing (Hypothesis) against an independent oracle'),
                       'level': 'exploration', 'level_note': n.get('note', 'Generated-input search against an independent oracle; shows no violation on the cases explored, never absence.')})
    else:
        na.append({'property': i, 'reason': NOTES.get(i, {}).get('na', 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
