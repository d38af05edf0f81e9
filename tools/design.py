"""Writes DESIGN.md from tools/DESIGN.in, with the tables of fixes and bugs."""
import json
import os
import sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'tools'))
from fixed import FIXED  # noqa: E402

text = open(os.path.join(V, 'tools', 'DESIGN.in')).read()
text = text.replace('@FIXED@', '\n'.join(
    f'* {p} `{c}`: {t}.' for p, c, t in FIXED))
rows = ['| bug | breaks | needs |', '|---|---|---|']
d = os.path.join(V, 'seeded')
for name in sorted(os.listdir(d)):
  with open(os.path.join(d, name, 'meta.json')) as f:
    m = json.load(f)
  rows.append(f"| {name} | {m['property']} | {m['needs']} |")
text = text.replace('@SEEDS@', '\n'.join(rows))
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
  f.write(text)
