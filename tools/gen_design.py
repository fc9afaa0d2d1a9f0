#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_body.md, seeded/*/meta.json and tools/seeded_results.json."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + '/tools/design_body.md').read()
res = {}
if os.path.exists(H + '/tools/seeded_results.json'): res = json.load(open(H + '/tools/seeded_results.json'))
rows = ['| Change | Property | What it breaks | Caught by (other checks that also see it) |', '|---|---|---|---|']
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m)); r = res.get(n, {})
    rows.append('| %s | %s | %s | %s |' % (n, d['property'], d['what_it_breaks'], r.get('text', 'not run yet')))
c = H + '/tools/conformance.md'
t = t.replace('NETCDF_CONFORMANCE', open(c).read() if os.path.exists(c) else 'None yet.').replace('SEEDED_TABLE', '\n'.join(rows))
open(H + '/DESIGN.md', 'w').write(t)
