#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
d = '/verif/seeded/'
rows = ''.join('| %s | %s | %s |\n' % (i, m['property'], m['needs'].rstrip('\n')) for i in sorted(os.listdir(d)) for m in [json.load(open(d + i + '/meta.json'))])
f = '/verif/DESIGN.md'
s = open(f).read()
head = '| bug | property | needs |\n|---|---|---|\n'
a = s.index(head) + len(head)
b = a
while b < len(s) and s[b] == '|': b = s.index('\n', b) + 1
open(f, 'w').write(s[:a] + rows + s[b:])
