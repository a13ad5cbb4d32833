#!/usr/bin/env python3
"""design.py LOG: rewrites the section "Planted bugs" of DESIGN.md from seeded/*/meta.json and the output of tools/bugs.sh"""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) (C\d+) rc=(\d+) \S+ (\d+)', l)
    if m:
        log[m[1]] = m[3] == '1' and m[4] == '1'
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {'yes' if log.get(d) else 'not run' if d not in log else 'NO'} |".replace('\n', ' '))
text = "## Planted bugs\n\nEach was written from the text of a property and the code, and is run with `tools/bugs.sh`; *caught*: the check of that property, quick\ntier, seed 1, exits 1 with its VIOLATION line.\n\n| bug | check | what it breaks | what it needs | caught |\n|-----|-------|----------------|---------------|--------|\n" + '\n'.join(rows) + '\n'
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'\n*## Planted bugs\n.*', '', s, flags=re.S).rstrip() + '\n\n' + text
open(p, 'w').write(s)
