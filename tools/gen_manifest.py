#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed properties
import json
CLAIMED = {}
def claim(pid, note, level='proof', theorems=None):
    CLAIMED[pid] = (note, level, theorems)
NA = {}
exec(open('/verif/tools/claims.py').read())
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    if p in CLAIMED:
        note, level, th = CLAIMED[p]
        c = dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                 technique='contract-based deductive verification of the Go source (vcg + SMT), bounded runs of the real code beside it',
                 level=level, level_note=note)
        if th: c['theorems'] = th
        checks.append(c)
na = [dict(property=p, reason=NA.get(p, 'not claimed yet: contracts under construction')) for p in props if p not in CLAIMED]
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='No hooks: contracts live in /verif/contracts and are keyed by function and loop ordinal; /repo carries only fix: commits.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
