#!/usr/bin/env python3
"""replay.py <replay file>: run the recorded failing inputs again on /repo's real code; exit 1 if one still fails."""
import os, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != '/opt/venv': os.execv(VENV, [VENV, '-W', 'ignore', '-B'] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'engine'))
from vc import ob
r = json.load(open(sys.argv[1], encoding='utf8'))
bad = 0
s = ob.Server(r['property'], r['tier'], r['seed'])
if r['kind'] == 'fin':
    a = s.ask({'ob': r['obligation'], 'fin': 1})
    for f in a.get('fail', []): bad += 1; print('FAILS', f)
else:
    for c in r['failures']:
        a = s.ask({'ob': r['obligation'], 'w': c['w']})
        print('ok' if a['ok'] else 'FAILS', repr(c['w']), 'gives', repr(a['impl']), 'expected', repr(a['spec']))
        bad += not a['ok']
sys.exit(1 if bad else 0)
