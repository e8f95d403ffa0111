#!/opt/venv/bin/python
"""Runs the solver-based check of one property:  check.py P07 [--tier quick|thorough]

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line.
Exit 2: the check could not decide anything (error of the check).
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import re
import resource
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('OCNN_REPO', '/repo')


def bootstrap():
  """never read or write byte code of the repository: a stale .pyc could hide a change"""
  sys.dont_write_bytecode = True
  sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'symtorch-nopyc-%d' % os.getpid())
  sys.path.insert(0, REPO)
  sys.path.insert(0, HERE)


bootstrap()
import faulthandler, signal  # noqa
faulthandler.register(signal.SIGUSR1)
import torch  # noqa
torch.set_num_threads(1)
import symtorch  # noqa
from symtorch import env as sv  # noqa


def load(prop):
  import importlib
  import checks.registry as reg
  mods = {m for m, _, _ in reg.jobs(prop, 'quick')} | {m for m, _, _ in reg.jobs(prop, 'thorough')}
  for m in sorted(mods):
    importlib.import_module('checks.' + m)
  return reg


def harness(mod, fn):
  import importlib
  return getattr(importlib.import_module('checks.' + mod), fn)


def work(task):
  mod, fn, cfg, prefix, seed, deadline, timeout_ms = task
  resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
  h = harness(mod, fn)
  cfg = dict(cfg)
  cap = cfg.pop('cap', 16)
  # depth-first inside one worker for a short while: avoids a round trip per path
  out = []
  stack = [list(prefix)]
  t0 = time.time()
  while stack and (not out or time.time() - t0 < 4.0):
    p = stack.pop()
    try:
      r = sv.run_symbolic(h, cfg, p, seed, deadline, timeout_ms, cap, repo=REPO)
    except MemoryError:
      r = {'status': 'inconclusive', 'info': 'out of memory', 'siblings': [], 'prefix': p}
    stack += r.pop('siblings')
    out.append(r)
    if r['status'] == 'violation':
      return out, []
  return out, stack


def key_of(mod, fn, cfg):
  return '%s.%s(%s)' % (mod, fn, ', '.join('%s=%r' % kv for kv in sorted(cfg.items())))


def findings():
  out = []
  p = os.path.join(HERE, 'known_findings.txt')
  if os.path.exists(p):
    for line in open(p):
      m = re.match(r'known: property=(\S+) harness=(\S+) match=/(.*)/ (.*)$', line.strip())
      if m:
        out.append(m.groups())
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
  ap.add_argument('--only', default=None, help='regular expression on the harness name')
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  t0 = time.time()
  reg = load(a.prop)
  jobs = reg.jobs(a.prop, a.tier)
  if a.only:
    jobs = [j for j in jobs if re.search(a.only, key_of(*j))]
  budget = float(os.environ.get('VERIF_BUDGET', '780' if a.tier == 'quick' else '10800'))
  deadline = t0 + budget
  timeout_ms = 60000 if a.tier == 'quick' else 600000
  known = [k for k in findings() if k[0] == a.prop]

  tot = dict(paths=0, infeasible=0, ok=0, obligations=0, syntactic=0, solver_obligations=0,
             validated=0, compared=0, queries=0, solver_s=0.0, ops=0, forks=0, exact=0, tt=0)
  per = {}
  functions, samples, inconclusive, violations, notes = set(), [], [], [], {}
  stop = False
  todo = [(mod, fn, cfg, [], 0) for mod, fn, cfg in jobs]
  workers = a.jobs
  while todo and not stop:
   with cf.ProcessPoolExecutor(workers, mp_context=mp.get_context('fork')) as ex:
    pend = {}
    broken = False

    def submit(mod, fn, cfg, prefix, tries=0):
      try:
        f = ex.submit(work, (mod, fn, cfg, prefix, seed, deadline, timeout_ms))
      except cf.process.BrokenProcessPool:
        todo.append((mod, fn, cfg, prefix, tries))
        return
      pend[f] = (mod, fn, cfg, prefix, tries)

    now, todo[:] = list(todo), []
    for j in now:
      submit(*j)
    while pend:
      done, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
      for f in done:
        mod, fn, cfg, prefix, tries = pend.pop(f)
        k = key_of(mod, fn, cfg)
        try:
          out, left = f.result()
        except Exception as e:     # a worker died
          if isinstance(e, cf.process.BrokenProcessPool):
            # every pending task fails with it: run them again with fewer workers
            broken = True
            if tries < 2:
              todo.append((mod, fn, cfg, prefix, tries + 1))
              continue
          inconclusive.append((k, 'worker: %s: %s' % (type(e).__name__, e)))
          continue
        d = per.setdefault(k, {'paths': 0, 'obligations': 0, 'wall_s': 0.0})
        for r in out:
          st = r['status']
          s = r.get('stats', {})
          tot['paths'] += 1
          d['paths'] += 1
          d['wall_s'] += r.get('wall', 0)
          d['obligations'] += r.get('obligations', 0)
          tot['queries'] += s.get('queries', 0)
          tot['solver_s'] += s.get('solver_s', 0)
          tot['ops'] += s.get('ops', 0)
          tot['forks'] += s.get('forks', 0)
          tot['tt'] += s.get('tt_feas', 0)
          tot['validated'] += r.get('validated', 0)
          tot['compared'] += r.get('compared', 0)
          tot['exact'] += r.get('exact_queries', 0)
          for n, v in r.get('notes', {}).items():
            notes[n] = notes.get(n, 0) + v
          functions.update(r.get('functions', ()))
          if st == 'ok':
            tot['ok'] += 1
            tot['obligations'] += r['obligations']
            tot['syntactic'] += r['syntactic']
            tot['solver_obligations'] += r['solver_obligations']
            if len(samples) < 6 and (d['paths'] == 1 or len(samples) < 2):
              samples.append({'harness': k, 'path': r['trace'][:40], 'witness': r['sample'],
                              'obligations': r['obligations']})
          elif st == 'infeasible':
            tot['infeasible'] += 1
          elif st == 'violation':
            hit = [x for x in known if x[1] == fn and
                   all(re.search(x[2], m + ' ' + w) for m, w in r['detail'])]
            if hit:
              print('KNOWN-FINDING: property=%s %s' % (a.prop, hit[0][3]))
              tot['ok'] += 1
            else:
              violations.append((mod, fn, cfg, r))
              stop = True
          else:
            inconclusive.append((k, r.get('info')))
          if a.v:
            print('%s %s %s obl=%s z3=%s %.2fs ops=%s' % (
                k, r.get('trace', [])[:20], st, r.get('obligations'),
                r.get('solver_obligations'), r.get('wall', 0), s.get('ops')), flush=True)
            if st not in ('ok', 'infeasible'):
              print('   ', r.get('info'), r.get('detail'), r.get('traceback', ''))
        if not stop:
          for p in left:
            if broken: todo.append((mod, fn, cfg, p, 0))
            else: submit(mod, fn, cfg, p)
      if stop:
        for f in pend: f.cancel()
        for pr in list(getattr(ex, '_processes', {}).values()):
          pr.terminate()
        break
   workers = max(2, workers // 2)

  wall = time.time() - t0
  bad = None
  if violations:
    mod, fn, cfg, r = violations[0]
    rec = {'property': a.prop, 'module': mod, 'harness': fn, 'cfg': cfg, 'seed': seed,
           'inputs': r['inputs'], 'draws': r['draws'], 'native': r['native'],
           'detail': r['detail'], 'traceback': r.get('traceback'),
           'failed_obligation': r.get('failed_obligation')}
    txt = json.dumps(rec, indent=1, sort_keys=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    bad = os.path.join(HERE, 'replays', '%s-%s.json' % (
        a.prop, hashlib.sha1(txt.encode()).hexdigest()[:10]))
    with open(bad, 'w') as f:
      f.write(txt + '\n')

  meta = reg.META[a.prop]
  ev = {
      'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
      'seed': seed, 'level': 'model_checking',
      'coverage': {
          'states': tot['ok'], 'transitions': tot['ops'],
          'traces_validated_against_impl': tot['validated'],
          'samples': samples,
          'explanation': 'states: feasible symbolic end states (paths) whose obligations were '
                         'all discharged; transitions: aten operators executed symbolically; '
                         'traces_validated: paths whose model was run natively and whose '
                         'asserted quantities agreed with the symbolic values',
          'paths_explored': tot['paths'], 'infeasible_paths': tot['infeasible'],
          'inconclusive_paths': len(inconclusive),
          'inconclusive': [list(map(str, x))[:2] for x in inconclusive[:5]],
          'obligations': tot['obligations'],
          'obligations_closed_by_term_identity': tot['syntactic'],
          'obligations_sent_to_solver': tot['solver_obligations'],
          'exact_real_arithmetic_queries': tot['exact'],
          'solver_queries': tot['queries'], 'solver_s': round(tot['solver_s'], 2),
          'path_feasibility_by_truth_table': tot['tt'],
          'values_compared_with_native_run': tot['compared'],
          'functions_encoded': sorted(functions),
          'bounds': meta['bounds'],
          'harnesses': {k: {'paths': v['paths'], 'obligations': v['obligations'],
                            'cpu_s': round(v['wall_s'], 1)} for k, v in sorted(per.items())},
      },
      'assumptions': reg.ASSUMPTIONS + meta.get('assumptions', []),
      'wall_s': round(wall, 2), 'violations': len(violations)}
  if not a.only:
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, sort_keys=True)
      f.write('\n')
  print('%s %s: %d paths (%d infeasible, %d inconclusive), %d obligations (%d to z3), '
        '%d queries, solver %.1fs, %d native validations, wall %.1fs' % (
            a.prop, a.tier, tot['paths'], tot['infeasible'], len(inconclusive),
            tot['obligations'], tot['solver_obligations'], tot['queries'], tot['solver_s'],
            tot['validated'], wall))
  if a.v and notes: print('notes', notes)
  if violations:
    for m, w in violations[0][3]['detail'][:6]:
      print('  %s: %s' % (m, w))
    print('VIOLATION property=%s replay=%s' % (a.prop, bad))
    return 1
  for k, i in inconclusive[:10]:
    print('INCONCLUSIVE %s: %s' % (k, i))
  if tot['ok'] == 0:
    print('nothing was decided')
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
