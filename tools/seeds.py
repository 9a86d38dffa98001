#!/usr/bin/env python3
"""Fills the table of planted bugs of DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for s in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{s}/meta.json'))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |".replace('\n', ' '))
d = open(here + '/DESIGN.md').read()
a, b = d.index('<!-- seeds -->'), d.index('<!-- end of seeds -->')
open(here + '/DESIGN.md', 'w').write(d[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + d[b:])
