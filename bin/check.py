#!/usr/bin/env python3
"""Run the check of one property:  bin/check.py P01"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if len(sys.argv) > 2 and sys.argv[2] == 'thorough':
    os.environ['VERIF_TIER'] = 'thorough'
from mv import util

try:
    m = importlib.import_module('mv.props.' + sys.argv[1].lower())
    rc = m.run()
except util.CheckError as x:
    print('CHECK ERROR:', x, flush=True)
    rc = 2
except Exception:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
