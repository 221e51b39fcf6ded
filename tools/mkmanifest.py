#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the list of claimed checks."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s quick' % i,
            thorough_cmd='python3 check.py %s thorough' % i,
            technique='static analysis: ' + tech, level='other',
            level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, 'no check has been built for it yet')))
json.dump(dict(version=1,
               setup_cmd='python3 check.py --setup',
               checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
