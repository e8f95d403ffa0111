#!/opt/venv/bin/python
"""Replays a counterexample natively:  replay.py replays/P07-xxxx.json  (exit 1: reproduces)"""
import json
import sys
import check
from symtorch import env as sv

r = json.load(open(sys.argv[1]))
check.load(r['property'])
h = check.harness(r['module'], r['harness'])
inputs = {k: sv.dec(v) for k, v in r['inputs'].items()}
st, env, info = sv.run_native(h, r['cfg'], inputs, sv.dec(r['draws']), r['seed'])
print('native status:', st)
if st == 'exception':
  print(info[0])
  print(info[1])
elif st == 'fail':
  for m, w in info[:20]:
    print('  %s: %s' % (m, w))
sys.exit(0 if st == 'ok' else 1)
