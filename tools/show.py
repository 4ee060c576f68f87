#!/usr/bin/env python3
import json, sys
for i in sys.argv[1:]:
    for c in json.load(open('/verif/evidence/%s.json' % i))['coverage']['contracts']:
        bad = {k: v['failed'] + v['unknown'] for k, v in c['obligations'].items() if v['failed'] + v['unknown']}
        print(i, c['unit'], c['name'], c['level'], 'ok' if c['complete'] and not bad else 'BAD', 'paths', c['paths'], 'obs', len(c['obligations']), 'z3', c['solver_queries'], c['covers'], bad, c['undecided'])
