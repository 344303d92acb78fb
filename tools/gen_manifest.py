#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(HERE, 'tools', 'techniques.json')))
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': f'python3 run_check.py {i} --tier quick',
            'thorough_cmd': f'python3 run_check.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'runtime monitoring: ' + t.get(
                'technique', 'independent oracle over observed calls of the '
                'real code under generated workloads'),
            'level': 'exploration',
            'level_note': t.get('note', '') + (' ' if t.get('note') else '') +
            'Holds on every execution observed (seeded random and hostile '
            'workloads, replayable); trusts the independent numpy oracle in '
            'vt/ and says nothing about inputs not generated.',
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1,
           'setup_cmd': 'python3 tools/setup.py',
           'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
