"""Refresh the numbers of DESIGN.md's table from evidence files, and its table of planted bugs from seeded/*/meta.json.

usage: design.py EVIDENCE_DIR
"""
import json
import re
import sys
from pathlib import Path

here = Path(__file__).resolve().parent.parent
ev = Path(sys.argv[1])
p = here / 'DESIGN.md'
s = p.read_text()
for f in sorted(ev.glob('C??.json')):
    d = json.loads(f.read_text())
    c = d['coverage']
    nums = f"{c['obligations']}/{c['partitions']}/{c['functions_interpreted']}"
    s, n = re.subn(rf"(?m)^(\| {f.stem} \| .* \| )\d+/\d+/\d+ \| \d+ \|$", lambda m: f"{m[1]}{nums} | {max(1, round(d['wall_s']))} |", s)
    if n != 1:
        print('no row for', f.stem)
rows = []
for m in sorted(here.glob('seeded/*/meta.json')):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
mark = '## 6. Table of planted bugs'
s = s.split(mark)[0].rstrip() + f"""

{mark}

Every bug is caught (exit 1 and a VIOLATION line) by the check of the property it is listed with.

| bug | property | breaks | needs |
|-----|----------|--------|-------|
""" + '\n'.join(rows) + '\n'
p.write_text(s)
