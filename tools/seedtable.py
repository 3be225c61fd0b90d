#!/usr/bin/env python3
"""Writes the list of planted bugs into DESIGN.md."""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds
by = {}
for s in seeds.SEEDS:
    if os.path.exists(os.path.join(V, 'seeded', s['id'], 'patch.diff')):
        by.setdefault(s['property'], []).append(s['id'].split('-', 1)[1])
rows = ['<!-- seeds -->', '', '%d planted bugs, each caught by the check of its property:' % sum(map(len, by.values())), '',
        '| property | planted bugs (each `cNN-` and) |', '|---|---|']
rows += ['| %s | %s |' % (p, ', '.join(sorted(by[p]))) for p in sorted(by)]
rows += ['', '<!-- /seeds -->']
p = os.path.join(V, 'DESIGN.md')
t = open(p).read().replace('@@SEEDS@@', '<!-- seeds -->\n<!-- /seeds -->')
open(p, 'w').write(re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '\n'.join(rows), t, flags=re.S))
