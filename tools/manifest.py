"""Writes MANIFEST.json from the property modules which exist."""
import ast
import json
import os
import sys

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'tools'))
import properties  # noqa: E402
from techniques import TECH  # noqa: E402

mods = {f[:3].upper(): f for f in os.listdir(os.path.join(V, 'checks'))
        if f.startswith('p') and f.endswith('.py')}
checks, na = [], []
for p in properties.P:
  pid = p['id']
  if pid in mods and pid in TECH:
    checks.append({
        'property': pid,
        'quick_cmd': f'./check {pid} --tier quick',
        'thorough_cmd': f'./check {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': 'property-based testing: ' + TECH[pid][0],
        'level': 'exploration', 'level_note': TECH[pid][1]})
  else:
    na.append({'property': pid, 'reason': 'the check is still being built'})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'vendor\'); import hypothesis, numpy, jax"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Each check runs generated cases in worker '
              'processes against the working tree of /repo (see DESIGN.md).'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
