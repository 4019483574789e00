#!/usr/bin/env python3
"""Fills the two tables of DESIGN.md (between the markers) from props.py and seeded/*/meta.json."""
import os, sys, re, json, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import props
t = {json.loads(l)['id']: json.loads(l)['title'] for l in open(os.path.join(R, 'properties.jsonl'))}
rows = []
for i in sorted(props.PROPS):
    c = props.PROPS[i]; rows.append('| %s | %s | %s. %s | %s |' % (i, '; '.join('`%s`: %s' % (m, ', '.join(k)) for m, k in c['contracts']), t[i], c.get('note', ''), (c.get('oracle') or 'none') + ('; bounded only: ' + ', '.join(c['bounded']) if c.get('bounded') else '')))
seeds = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
cb = json.load(open(os.path.join(R, 'tools', 'caught.json')))
for f in sorted(glob.glob(os.path.join(R, '*ed', '*', 'meta.json'))):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f)); seeds.append('| %s | %s | %s | %s |' % (n, d['property'], d['needs'].replace('|', '/'), cb.get(n, '?')))
p = os.path.join(R, 'DESIGN.md'); s = open(p).read()
def fill(s, mark, text):
    a, b = '<!-- %s -->' % mark, '<!-- /%s -->' % mark; new = a + '\n' + text + '\n' + b
    return re.sub(re.escape(a) + '.*?' + re.escape(b), lambda m: new, s, flags=re.S)
s = fill(s, 'table', '| id | contract modules: classes | what is proved | native search (bounded), oracle |\n|---|---|---|---|\n' + '\n'.join(rows)); s = fill(s, 'seeds', '\n'.join(seeds))
open(p, 'w').write(s)
