#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.tmpl.md, checks.json, properties.jsonl and tools/seed_results.txt."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ck = json.load(open(V + '/checks.json'))
tit = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); tit[d['id']] = d['title']
t = open(V + '/tools/design.tmpl.md').read()
rows = ['| %s | %s | **%s.** %s |' % (p, ck[p]['level'], tit[p], ck[p]['note']) for p in sorted(ck)]
res = {}
for l in open(V + '/tools/seed_results.txt'):
    f = l.split(None, 2)
    if len(f) == 3: res[f[0]] = f[2].strip()
s = ['| bug | property | needs | result |', '|---|---|---|---|']
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
    s.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], res.get(b, '?')))
t = t.replace('@@TABLE@@', '\n'.join(rows)).replace('@@SEEDS@@', '\n'.join(s)).replace('@@MORE@@', '').replace('\n\n\n', '\n\n')
open(V + '/DESIGN.md', 'w').write(t)
