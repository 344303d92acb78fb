#!/opt/venv/bin/python
"""Write DESIGN.md from design_head.md, notes.py, the checks and caught.json."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, '/repo', os.path.join(HERE, 'tools')]
from notes import NOTES
out = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
tech = {}
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    m = importlib.import_module('checks.' + i.lower())
    t, oracle, why = NOTES[i]
    tech[i] = {'technique': t}
    out += f"### {i} {p['title']}\n\n{p['statement']}\n\n"
    out += f"*Deciding method*: {t}.\n\n{oracle}\n\n"
    out += f"*Workload*: {m.RULE}.\n\n"
    if m.ASSUMPTIONS:
        out += '*Assumptions*: ' + '; '.join(m.ASSUMPTIONS) + '.\n\n'
    out += '*Cases* (quick / thorough): ' + ', '.join(
        f'{s.name} {s.n_quick}/{s.n_thorough}' for s in m.STREAMS) + '.\n\n'
    out += f"*Beyond tests*: {why}.\n\n"
path = os.path.join(HERE, 'tools', 'seeds_tail.md')
if os.path.exists(path):
    out += open(path).read()
sys.stdout.flush()
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(out)
json.dump(tech, open(os.path.join(HERE, 'tools', 'techniques.json'), 'w'),
          indent=1)
