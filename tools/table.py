"""Fills DESIGN.md's table of planted bugs from the output of plant.py.
Usage: plant.py | tee LOG; table.py LOG"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+)\s+caught: property (\S+) broken in simulated run '
                 r'(\d+) \(seed \d+\): (\S+)', l)
    if m:
        rows[m.group(1)] = m.groups()[1:]
# what the log does not name stays as it was
s = open(os.path.join(HERE, 'DESIGN.md')).read()
for l in s[s.index('<!-- table -->'):s.index('<!-- /table -->')].split('\n'):
    f = [x.strip() for x in l.strip('|').split('|')]
    if len(f) >= 5 and f[2].isdigit():
        rows.setdefault(f[0], tuple(f[1:4]))
out = ['| planted bug | check | first run that shows it | as | what it needs |',
       '|---|---|---|---|---|']
for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    meta = json.load(open(os.path.join(HERE, 'seeded', b, 'meta.json')))
    c, run, kind = rows.get(b, (meta['property'], '-', 'NOT CAUGHT'))
    out.append('| {} | {} | {} | {} | {} |'.format(b, c, run, kind,
                                                   meta['needs']))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = s.index('<!-- table -->'), s.index('<!-- /table -->')
s = s[:a] + '<!-- table -->\n' + '\n'.join(out) + '\n' + s[b:]
open(p, 'w').write(s)
