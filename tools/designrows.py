#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
lines = open('DESIGN.md').read().rstrip('\n').split('\n')
i = next(k for k, l in enumerate(lines) if l.startswith('| change | breaks only'))
j = i + 2
while j < len(lines) and lines[j].startswith('|'):
    j += 1
rows = []
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['needs']} | {m['property']} |")
lines[i + 2:j] = rows
open('DESIGN.md', 'w').write('\n'.join(lines) + '\n')
