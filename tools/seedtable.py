#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and a run of seeds.sh."""
import glob, json, os, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run(['bash', V + '/tools/seeds.sh'], capture_output=True, text=True).stdout
res = {}
for l in out.splitlines():
    f = l.split()
    if len(f) > 2: res[f[0]] = f[2] == 'rc=1'
rows = ['<!-- seeds -->', '| planted bug | property | breaks | caught by its check |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {'yes' if res.get(i) else 'NO'} |")
rows.append('<!-- /seeds -->')
p = V + '/DESIGN.md'; s = open(p).read(); t = '\n'.join(rows)
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
