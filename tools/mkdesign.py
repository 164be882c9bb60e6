#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the harness sources, known_findings.jsonl and seeded/."""
import re, glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(root + '/tools/design_head.md').read()
rows = {}
for f in sorted(glob.glob(root + '/harness/*/*.go')):
    t = open(f).read()
    for m in re.finditer(r'((?:^//.*\n)+)func (\w+)\(\)', t, re.M):
        o = re.search(r'//vp:check (\S+) ?(.*)', m[1])
        if not o: continue
        doc = ' '.join(l[3:] for l in m[1].split('\n') if l.startswith('// '))
        rows.setdefault(f.split('/')[-2], []).append((m[2], o[1], o[2], doc))
out = []
for d in sorted(rows):
    out.append(f'\n### {d}\n')
    for n, p, o, doc in rows[d]:
        out.append(f'- **{n}** ({p.replace(",", ", ")}{"; " + o if o else ""}): {doc}')
s = s.replace('@HARNESSES@', '\n'.join(out).strip())
fx = [json.loads(l) for l in open(root + '/known_findings.jsonl')]
s = s.replace('@FIXES@', '\n'.join(f'- {x["property"]} ({x["commit"][:7]}): {x["what"]}.' for x in fx))
res = {}
p = root + '/tools/seeded_results.txt'
if os.path.exists(p):
    for l in open(p):
        w = l.split()
        res[w[0]] = (w[2], w[3])
tab = ['| change | property | what it breaks | quick check |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = d.split('/')[-2]
    m = json.load(open(d))
    r = res.get(i)
    v = 'not run' if not r else {'rc=1': 'caught', 'rc=0': 'missed'}.get(r[0], r[0]) + ' (' + r[1] + ')'
    tab.append(f'| {i} | {m["property"]} | {m["what_it_breaks"]} Needs: {m["needs"]}. | {v} |')
s = s.replace('@SEEDED@', '\n'.join(tab))
open(root + '/DESIGN.md', 'w').write(s)
