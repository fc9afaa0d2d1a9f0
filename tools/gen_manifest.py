#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/scenarios.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/mc')
import scenarios as S
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
TECH = 'stateless/explicit-state model checking of the real code: exhaustive exploration of schedules, choices and operation sequences under a controlled scheduler (DPOR-style sleep sets, state hashing)'
checks, na = [], []
for p in props:
    i = p['id']
    if i in S.PROPS:
        q = S.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, technique=q.get('technique', TECH), level='model_checking',
            level_note='Every execution of the %d (quick) / %d (thorough) bounded scenarios in mc/scenarios.py is explored on the code compiled from the working tree%s; assumes the simulated pthreads, MPI, NetCDF and libnuma of mc/rt behave as documented and sequentially consistent memory (data races are reported).' % (len(q['quick']), len(q['quick']) + len(q['thorough']), q.get('note', ''))))
    else:
        na.append(dict(property=i, reason='no check registered yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='No hooks in /repo are needed: the checks compile the unmodified sources against simulated libraries. See DESIGN.md.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
