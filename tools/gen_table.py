#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## Planted bugs and what catches them\n'
text = open(HERE + '/DESIGN.md').read()
start = text.index(HEAD)
tail = text[text.rindex('\n|', start):].split('\n', 2)[2]   # the prose behind the table
rows = []
for meta in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(meta))
    m = json.load(open(meta))
    patch = open(os.path.dirname(meta) + '/patch.diff').read()
    where = ', '.join(re.findall(r'^\+\+\+ b/goost/(\S+)', patch, re.M))
    rows.append('| %s | %s | %s | %s | caught by %s quick |' % (i, m['property'], where, m['needs'].strip(), m['property']))
open(HERE + '/DESIGN.md', 'w').write(text[:start] + HEAD + '\n| bug | property | where | needs | result |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n' + tail)
