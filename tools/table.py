"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import collections
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.defaultdict(list)
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    t[json.load(open(f))['property']].append(f.split('/')[-2])
rows = ''.join('| %s | %s |\n' % (k, ' '.join(t[k])) for k in sorted(t))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'(\| check \| planted changes it catches \|\n\|---\|---\|\n)(\|.*\n)+', lambda m: m.group(1) + rows, s)
open(V + '/DESIGN.md', 'w').write(s)
