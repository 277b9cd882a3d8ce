"""Renders DESIGN.md from design.in, sa/meta.py, properties.jsonl and seeds.txt."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, 'sa'))
import meta

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
# id: (what is enumerated, oracle, bounds, seconds, what tests cannot reach)
D = eval(open(os.path.join(HERE, 'design_rows.txt')).read())
t = []
for p in props:
    i = p['id']
    if i not in meta.EXPLAIN:
        continue
    what, oracle, bounds, cost, reach = D[i]
    t.append('### %s %s\n' % (i, p['title']))
    e = meta.EXPLAIN[i].replace(meta._AI, '').replace(meta._API, '')
    t.append('*Rules.* %s\n' % e)
    t.append('*Analysed.* %s *Oracle.* %s *Bounds.* %s *Cost.* about %s s. *Beyond tests.* %s\n' % (what, oracle, bounds, cost, reach))
na = ['* **%s %s** - %s' % (p['id'], p['title'], meta.NA[p['id']]) for p in props if p['id'] in meta.NA]
seeds = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
caught = {}
for l in open(os.path.join(HERE, 'caught.txt')):
    if l.strip():
        a, b = l.split(None, 1)
        caught[a] = b.strip()
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], caught.get(s, '?')))
rev = open(os.path.join(HERE, 'reverts.txt')).read().strip()
o = open(os.path.join(HERE, 'design.in')).read()
for k, v in (('@TABLE@', '\n'.join(t)), ('@NA@', '\n'.join(na)), ('@SEEDS@', '\n'.join(seeds)), ('@REV@', rev)):
    o = o.replace(k, v)
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write(o)
