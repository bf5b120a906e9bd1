"""python3 tools/mktable.py: the table of planted bugs at the end of DESIGN.md"""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(f'{ROOT}/DESIGN.md').read()
head = text[:text.index('## Planted bugs')]
rows = []
for f in sorted(glob.glob(f'{ROOT}/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs'].replace('|', '/')} |")
open(f'{ROOT}/DESIGN.md', 'w').write(head + f'''## Planted bugs

`seeded/<id>/`, {len(rows)} of them; all are caught by the quick check of their property.

| bug | property | needs |
|---|---|---|
''' + '\n'.join(rows) + '\n')
