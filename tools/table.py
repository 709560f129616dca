#!/usr/bin/env python3
"""Rewrites the list of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.setdefault(m['property'], []).append('%s (%s)' % (os.path.basename(os.path.dirname(f)).split('-', 1)[1], m['needs']))
text = open(HERE + '/DESIGN.md').read()
mark = '<!-- planted -->\n'
text = text[:text.index(mark) + len(mark)] + '\n| check | catches (what the change needs to show) |\n|---|---|\n'
for p in sorted(rows, key=lambda p: ('CLDNAT'.index(p[0]), p)):
    text += '| %s | %s |\n' % (p, '; '.join(rows[p]))
open(HERE + '/DESIGN.md', 'w').write(text)
