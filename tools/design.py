#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.txt with the tables of harnesses (from registry.py) and planted bugs (from seeded/ and tools/caught.json) filled in."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
notes, cur = {}, None
text = open(os.path.join(ROOT, 'tools', 'design.txt')).read()
head, rest = text.split('\n@PROPERTIES\n')
per, tail = rest.split('\n@END\n')
for l in per.split('\n'):
    if l.startswith('@C'):
        cur = l[1:].strip(); notes[cur] = []
    elif cur:
        notes[cur].append(l)
out = [head, '']
for p in props:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '', '\n'.join(notes[i]).strip(), '']
    out += ['| harness | decides | bounds (quick; thorough where different) |', '|---|---|---|']
    for h in registry.PROPS[i].harnesses:
        q, t = h.bounds('quick'), h.bounds('thorough')
        b = 'thorough only: ' + t if h.thorough_only else q if q == t else '%s; thorough: %s' % (q, ', '.join(map(str, h.params('thorough'))))
        out.append('| %s | %s | %s |' % (h.name, h.what, b.replace('|', '\\|')))
    out.append('')
caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
tab = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', s, 'meta.json')))
    tab.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], caught.get(s, 'not recorded')))
out.append(tail.replace('@SEEDED', '\n'.join(tab)))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
