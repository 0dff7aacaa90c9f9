#!/usr/bin/env python3
"""catch_table.py [RESULTS]: writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json; RESULTS is
the output of tools/try_seed.sh for some or all of them (the message with which the check reported it)."""
import glob, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
said = {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        m = re.match(r'(\S+): check (C\d+) exit (\d+): (?:minimised to \d+ choices: )?([\w-]*)', l)
        if m:
            said.setdefault(m[1], []).append((m[2], m[3], m[4]))
path = os.path.join(root, 'DESIGN.md')
text = open(path).read()
mark = '## Planted bugs and the checks that report them\n'
old = {}
if mark in text:
    text, tail = text.split(mark)
    for l in tail.splitlines():
        c = [x.strip() for x in l.split('|')]
        if len(c) >= 5:
            old[c[1]] = c[3]
rows = []
for f in glob.glob(os.path.join(root, 'seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    got = ', '.join('%s (%s)' % (p, c) if e == '1' else '**missed by %s**' % p for p, e, c in said[i]) if i in said else old.get(i, m['property'])
    rows.append((m['property'], i, got, m['needs'].replace('|', '/')))
rows.sort()
out = mark + '\nEach keeps the existing tests passing; its demonstration tells the two trees apart. In brackets: the class of the violation.\n\n| bug | property | reported by | needs |\n|---|---|---|---|\n'
out += ''.join('| %s | %s | %s | %s |\n' % (i, p, g, n) for p, i, g, n in rows)
open(path, 'w').write(text.rstrip('\n') + '\n\n' + out)
