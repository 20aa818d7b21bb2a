#!/usr/bin/env python3
"""Build what the checks use (each check also does this for itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mv import util
util.build(['mwsd', 'mws-index', 'schemad', 'crawlerd', 'docs2harvest', 'harvests2json', 'analyze_example'])
print('ok')
