#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property on /repo's current tree."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != '/opt/venv': os.execv(VENV, [VENV, '-W', 'ignore', '-B'] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'engine'))
from vc import ob
if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(ob.main(sys.argv[1], tier))
