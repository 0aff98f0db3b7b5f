#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/ and the texts in tools/manifest_texts.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, 'tools', 'manifest_texts.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, 'checks', p + '.py')) and p in T['checks']:
        t = T['checks'][p]
        checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 checks/%s.py' % p,
                           thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py' % p,
                           evidence_file='evidence/%s.json' % p, technique=t['technique'],
                           level='model_checking', level_note=t['note']))
    else:
        na.append(dict(property=p, reason=T['not_applicable'].get(p, 'No check is claimed for this property yet.')))
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='', enable='', source_commits=[]), checks=checks, not_applicable=na, notes=T['notes'])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
