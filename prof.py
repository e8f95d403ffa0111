"""developer tool: profile the first path of a harness:  prof.py mod fn "dict(...)" [prefix]"""
import sys, cProfile, pstats, importlib, time
import check
from symtorch import env as sv
mod, fn, cfg = sys.argv[1], sys.argv[2], eval(sys.argv[3])
prefix = eval(sys.argv[4]) if len(sys.argv) > 4 else []
h = check.harness(mod, fn)
pr = cProfile.Profile()
t = time.time()
import signal
def stop(*a): raise KeyboardInterrupt
signal.signal(signal.SIGALRM, stop); signal.alarm(int(sys.argv[5]) if len(sys.argv) > 5 else 60)
pr.enable()
try:
  r = sv.run_symbolic(h, cfg, prefix, 1, None, 60000, cfg.pop('cap', 16), repo=check.REPO)
  pr.disable()
  print({k: v for k, v in r.items() if k not in ('sample', 'functions', 'siblings', 'inputs')})
except BaseException as e:
  pr.disable()
  print('stopped', type(e), e)
print(time.time() - t)
ps = pstats.Stats(pr); ps.sort_stats('cumulative').print_stats(45)
