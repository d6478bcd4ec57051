#!/usr/bin/env python3
"""Development tool (no check uses it): rewrites the table of planted changes at the end of DESIGN.md.
usage: tools/seedtable.py LOG...   (logs of tools/seedrun.py; a change is listed as caught if its last line says so)"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for log in sys.argv[1:]:
    for line in open(log):
        m = re.match(r'(\S+)\s+(P\d\d) (CAUGHT|rc=\d+)', line)
        if m:
            caught[m.group(1)] = m.group(3) == 'CAUGHT'
rows = {}
for i in sorted(os.listdir(ROOT + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))
    rows.setdefault(meta['property'], []).append(i if caught.get(i) else i + ' (missed)' if i in caught else i + ' (not run)')
text = open(ROOT + '/DESIGN.md').read()
head = text[:text.index('<!-- seeds -->')]
with open(ROOT + '/DESIGN.md', 'w') as f:
    f.write(head + '<!-- seeds -->\n| check | planted changes it catches |\n|-|-|\n')
    for p, ids in sorted(rows.items()):
        f.write('| %s | %s |\n' % (p, ', '.join(ids)))
print(sum(map(len, rows.values())), 'changes;', sum(not v for v in caught.values()), 'missed')
