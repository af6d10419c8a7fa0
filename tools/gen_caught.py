#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(H + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m['needs'].replace('|', '/').replace('\n', ' ')))
t = '| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % (b, p, w, n) for p, b, w, n in sorted(rows))
p = H + '/DESIGN.md'
s = open(p).read()
A, B = '<!-- caught -->\n', '<!-- /caught -->'
if A not in s:
    assert 'CAUGHT_TABLE' in s
    s = s.replace('CAUGHT_TABLE', A + B)
i, j = s.index(A) + len(A), s.index(B)
open(p, 'w').write(s[:i] + t + s[j:])
