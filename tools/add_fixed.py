#!/usr/bin/env python3
"""Record a repaired defect: add_fixed.py PROPERTY COMMIT WHAT-FAILED"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
prop, h, what = sys.argv[1:4]
lst = k if isinstance(k, list) else k['findings']
lst.append({'property': prop, 'status': 'fixed', 'key': h, 'what': 'fixed: property=%s %s %s' % (prop, h, what)})
json.dump(k, open(p, 'w'), indent=1)
