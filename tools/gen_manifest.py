#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from checks.py and properties.jsonl.
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CHECKS:
        c = CHECKS[p][0]
        checks.append(dict(property=p, quick_cmd='python3 run.py check %s --tier quick' % p, thorough_cmd='python3 run.py check %s --tier thorough' % p,
                           technique=c['technique'], level=c['level'], level_note=c['note']))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'the check is not built yet')) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: the schedule explorer intercepts pthread and compiler instrumentation at link time, the other checks call the public interface.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
