"""Writes MANIFEST.json from the checks present (run: python3 tools/manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
T = {
 'C01': 'online monitor: recording kernel inside the real collocator, selections judged against exhaustive great-circle search',
 'C02': 'online monitor: every index/kernel query answer judged against exhaustive great-circle search',
}
DEF = 'runtime monitor with an independent reference oracle over randomised hostile workloads'
NOTE = ('Exploration of randomised, seeded, hostile workloads on the real code; every observation is decided by an independent '
        'oracle. Nothing outside the explored inputs is claimed.')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='bash run.sh %s quick' % i, thorough_cmd='bash run.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=T.get(i, DEF), level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks)
m['not_applicable'] = na
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
