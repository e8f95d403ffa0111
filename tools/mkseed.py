#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from tools/seeds.py and confirms each in a scratch copy."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from seeds import SEEDS
OUT = os.path.join(os.path.dirname(HERE), 'seeded')


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main():
  want = sys.argv[1:]
  for s in SEEDS:
    sid = s['id']
    if want and not any(re.fullmatch(w, sid) for w in want): continue
    d = os.path.join(OUT, sid)
    os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
      repo = os.path.join(scratch, 'repo')
      sh('git worktree prune; git clone -q /repo %s' % repo, '/')
      for f, old, new in s['edits']:
        p = os.path.join(repo, f)
        t = open(p).read()
        assert t.count(old) == 1, (sid, f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
      diff = sh('git diff', repo).stdout
      assert diff
      open(os.path.join(d, 'patch.diff'), 'w').write(diff)
      open(os.path.join(d, 'demo.py'), 'w').write('from common import *\n\n' + s['demo'].strip() + '\n')
      shutil.copy(os.path.join(HERE, 'demo_common.py'), os.path.join(d, 'common.py'))
      open(os.path.join(d, 'demo.sh'), 'w').write(
          '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
          'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
      os.chmod(os.path.join(d, 'demo.sh'), 0o755)
      json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                open(os.path.join(d, 'meta.json'), 'w'), indent=1)
      bad = sh(d + '/demo.sh', repo)
      tests = sh('PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -x --no-header test -p no:cacheprovider 2>&1 | tail -12' % repo, repo)
      res = sh('git stash -q; %s/demo.sh' % d, repo)
      failed = re.findall(r'^FAILED (\S+)', sh(
          'git stash pop -q; PYTHONPATH=%s /opt/venv/bin/python -m pytest -q --no-header test -p no:cacheprovider 2>&1' % repo, repo).stdout, re.M)
      base = set(BASE)
      new = [x for x in failed if x not in base]
      ok = bad.returncode != 0 and res.returncode == 0 and not new
      print('%-28s %s  demo bad=%d clean=%d new failures=%s' % (
          sid, 'OK ' if ok else 'NOT OK', bad.returncode, res.returncode, new), flush=True)
      if not ok: print(bad.stdout[-800:], bad.stderr[-800:], res.stderr[-1500:])
      if bad.returncode and 'AssertionError' not in bad.stderr: print('   note: fails with', bad.stderr.strip().splitlines()[-1:])
    finally:
      shutil.rmtree(scratch)


BASE = []
if __name__ == '__main__':
  r = sh('/opt/venv/bin/python -m pytest -q --no-header test -p no:cacheprovider 2>&1', '/repo')
  BASE += re.findall(r'^FAILED (\S+)', r.stdout, re.M)
  print(len(BASE), 'fail on the base')
  main()
