"""rec.py fixed|finding ... : append an entry to known_findings.json.
   rec.py fixed <PROP> <commit> <what>;  rec.py finding <PROP> <mech> <what>"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p)) if os.path.exists(p) else dict(findings=[], fixed=[])
k, prop, x, what = sys.argv[1:5]
if k == 'fixed':
    d['fixed'].append('fixed: property=%s %s %s' % (prop, x, what))
else:
    d['findings'].append(dict(property=prop, mech=x, what=what))
json.dump(d, open(p, 'w'), indent=1)
