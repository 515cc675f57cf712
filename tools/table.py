#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os
by = collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    by[m['property']].append((os.path.basename(os.path.dirname(f)), m['needs']))
s = open('/verif/DESIGN.md').read()
head = '## Which checks catch which planted bugs\n'
s = s.split(head)[0].rstrip('\n') + '\n\n' + head + '''
`tools/seed.py detect` runs a bug's own property's check on a copy with the bug. All
%d are caught (exit 1 and a VIOLATION line of that property); those that a check
missed at first led to the spaces named above. What each bug needs is in its meta.json.

| check | planted bugs it catches |
|---|---|
''' % sum(len(v) for v in by.values())
for p in sorted(by):
    s += '| %s | %s |\n' % (p, ', '.join(i for i, _ in by[p]))
open('/verif/DESIGN.md', 'w').write(s)
