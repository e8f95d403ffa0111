#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the tables in checks/ (run by hand)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks.properties import PROPS, NOT_APPLICABLE   # noqa
import checks.registry as reg                         # noqa

TECH = ('symbolic execution of the repository\'s Python over symbolic tensors (every feasible path '
        'inside the bounds), assertions discharged by z3 / a SAT back end, counterexamples replayed '
        'natively')
NOTE = ('All inputs inside the stated bounds are decided by the solver: {b}. Nothing is claimed '
        'outside them. Trusted: the encoding of the aten operators in symtorch (cross-checked on '
        'every path by running a solver model through the real kernels), z3/SAT; {f}.')


def main():
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
      assert len(p['title']) <= 80, p['title']
      f.write(json.dumps({
          'id': p['id'], 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['quant']},
          'why_tests_cant': p['why'],
          'anchors': {'files': p['files'],
                      'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
  checks = []
  na = {k for k, _ in NOT_APPLICABLE}
  ids = [p['id'] for p in PROPS]
  assert len(set(ids)) == len(ids)
  for p in PROPS:
    if p['id'] in na: continue
    m = reg.META[p['id']]
    assert len(m['bounds']) > 10, p['id']
    checks.append({
        'property': p['id'], 'quick_cmd': './check.py ' + p['id'],
        'thorough_cmd': './check.py %s --tier thorough' % p['id'],
        'technique': TECH, 'level': 'model_checking',
        'level_note': NOTE.format(b=m['bounds'], f='; '.join(
            list(m['assumptions']) + ['floats are modelled as exact reals' if m.get('reals', True)
                                      else 'integers only']))})
  for k in reg.META:
    assert k in ids, k
  json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
             'not_applicable': [{'property': k, 'reason': r} for k, r in NOT_APPLICABLE],
             'notes': 'check.py runs one property; VERIF_BUDGET overrides its time budget (780 s '
                      'quick, 10800 s thorough). No hooks in /repo are needed.'},
            open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
  print(len(PROPS), 'properties,', len(checks), 'checks')


main()
