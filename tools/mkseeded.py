#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md (between the markers)."""
import glob, json, os, re
rows = []
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m))
    id = os.path.basename(os.path.dirname(m))
    one = lambda s: re.sub(r'\s+', ' ', s).strip().replace('|', '\\|')
    rows.append((d['property'], id, one(d['what_it_breaks']), one(d['needs'])))
out = ['| property | change | what it breaks | needs |', '|---|---|---|---|']
out += ['| %s | %s | %s | %s |' % r for r in sorted(rows)]
p = '/verif/DESIGN.md'
s = open(p).read()
a, b = '<!-- planted:begin -->', '<!-- planted:end -->'
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:]
s = re.sub(r'\b\d+ changes are planted', '%d changes are planted' % len(rows), s)
open(p, 'w').write(s)
print(len(rows), 'planted changes')
