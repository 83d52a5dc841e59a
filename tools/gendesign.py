#!/usr/bin/env python3
# Appends the table of planted bugs (from seeded/*/meta.json) to DESIGN.body.md and writes DESIGN.md.
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/tools/DESIGN.body.md').read()
rows = []
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '\\|')))
s = s.replace('@@SEEDS@@', '| planted bug | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
