#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property (caught by its check) | needs |', '|---|---|---|']
for d in sorted(glob.glob(HERE + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s%s | %s |' % (os.path.basename(d), m['property'],
                                      ' (strengthened)' if m.get('strengthened') else '', m['needs'].replace('|', '/')))
p = HERE + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'\| bug \| property.*', lambda m: '\n'.join(rows) + '\n', t, flags=re.S)
open(p, 'w').write(t)
