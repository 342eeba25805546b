"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
head = s[:s.index('## Planted bugs')]
rows = []
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s quick |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['property']))
open(p, 'w').write(head + '''## Planted bugs

Written from the property and the code; kept whether caught at once or only after the check had been strengthened
(`tools/plant.py` confirms demonstration, tests and check).  All that are kept are caught by the quick command.

| bug | property | needs | caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n')
