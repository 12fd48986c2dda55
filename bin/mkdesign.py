#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (run by hand)."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['| change | needs | breaks |', '|---|---|---|']
ids = sorted(os.listdir(R + '/seeded'))
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (R, i)))
    c = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append('| `%s` | %s | %s |' % (i, c(m['needs']), c(m['what_it_breaks'])))
p = R + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'holds \S+ changes', 'holds %d changes' % len(ids), s)
s = re.sub(r'SEEDED_TABLE|\| change \| needs[\s\S]*?(?=\n\n|\Z)', lambda _: '\n'.join(rows), s, count=1)
open(p, 'w').write(s)
