#!/usr/bin/env python3
"""Show what a replay file says, step by step:  tools/replay.py FILE"""
import json, sys
d = json.load(open(sys.argv[1]))
r = d['replay']['reject']
print(d['property'], d['replay']['label'], '-', r['what'])
print('observed', json.dumps(r['observed'])[:1500])
print('expected', r['expected'][:800])
sc = d['replay']['scenario']
print({k: (v if not isinstance(v, (list, dict)) else '...') for k, v in sc.items()})
