#!/usr/bin/env python
"""Usage: run.py <property id> [quick|thorough]

Decides one property on the code in /repo. Exit 0: it held on everything
explored; exit 1 and a VIOLATION line: it is broken."""
import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [here + '/harness', here + '/checks']
prop = sys.argv[1]
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
sys.argv = sys.argv[:1]
import vlib
sys.exit(vlib.main(prop, importlib.import_module(prop.lower()).run))
