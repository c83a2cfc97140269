#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from the output of `seedlib.py tryall` (and `try`): seedtable.py LOG..."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        w = l.split()
        if len(w) > 2 and re.fullmatch(r'C\d\d', w[1]) and os.path.isdir(os.path.join(V, 'seeded', w[0])):
            got.setdefault(w[0], {})[w[1]] = w[2]
rows = []
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    r = got.get(s, {}).get(m['property'], 'not run')
    files = sorted({l[6:].strip() for l in open(os.path.join(V, 'seeded', s, 'patch.diff')) if l.startswith('+++ b/')})
    rows.append((m['property'], s, m['needs'].replace('\n', ' ').replace('|', '/'), r.lower() + (' (does not count: benchmarks/)' if files[0].startswith('benchmarks') else '')))
rows.sort()
p = os.path.join(V, 'DESIGN.md')
t = open(p).read().split('## Table of planted bugs')[0].rstrip() + '\n\n## Table of planted bugs\n\n'
t += '%d bugs; "caught": the quick check of the property reports a violation.\n\n| property | bug | needs | result |\n|---|---|---|---|\n' % len(rows)
t += ''.join('| %s | %s | %s | %s |\n' % r for r in rows)
open(p, 'w').write(t)
