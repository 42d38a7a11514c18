#!/usr/bin/env python3
"""hints.py RESULT.json...: record how the units of a property were discharged (contracts/hints.json: only used to
order the work, to leave out candidate invariants that failed, and to try first the solver that succeeded)"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts', 'hints.json')
h = json.load(open(p)) if os.path.exists(p) else {'Reach': {}, 'Units': {}}
for f in sys.argv[1:]:
    r = json.load(open(f))
    if r.get('failed'):
        print(f, 'has failures, left out')
        continue
    h['Reach'][r['property']] = sorted(u['name'] for u in r['units'])
    for u in r['units']:
        o = h['Units'].get(u['name'], {})
        n = {'ms': max(10, u.get('ms', 0))}
        if u.get('dis'):
            n['dis'] = u['dis']
        if u.get('by'):
            n['by'] = u['by']
        h['Units'][u['name']] = n
json.dump(h, open(p, 'w'), indent=0, sort_keys=True)
