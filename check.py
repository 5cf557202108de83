#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]

Builds the program facts from /repo's current tree and runs one property's rules on them.
exit 0: held everywhere; exit 1: VIOLATION lines; exit 2: the analysis itself could not run
(missing anchor, floor not reached, build failure) - never reported as a pass.
"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lsa import core
sys.exit(core.main(sys.argv[1:]))
