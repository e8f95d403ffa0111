"""The other harnesses on larger octrees: the split labels follow a few fixed patterns (every one of
them explored), everything else - features, weights, queries, gradients - stays symbolic."""
import importlib
from . import lib


class Pattern:
  """split label of node i at depth d: a scattered choice of about `p` percent of the nodes, at
  most `most` per level"""

  def __init__(self, seed, p, most, every):
    self.seed, self.p, self.most, self.every = seed, p, most, every

  def __call__(self, name, depth):
    return {d: self.level(sum(map(ord, name)), d) for d in range(depth + 1)}

  def level(self, tag, d):
    x0 = (self.seed * 7919 + tag * 104729 + d * 1299709 + 12345) & 0xffffffff
    if d == 0: return lambda i: True
    chosen = {}
    def f(i):
      if not chosen:
        x, k = x0, 0
        for j in range(4096):
          x = (x * 1664525 + 1013904223) & 0xffffffff
          on = (x >> 16) % 100 < self.p and k < self.most
          k += on
          chosen[j] = on
        for g in range(0, 4096 if self.every else 8, 8):
          if not any(chosen[j] for j in range(g, g + 8)): chosen[g + (x >> (g // 8) % 24) % 8] = True
      return chosen[i]
    return f


def big(e, mod, fn, seeds=(1, 2), p=30, most=9, every=False, **cfg):
  h = getattr(importlib.import_module('checks.' + mod), fn)
  seed = e.fork('pattern', list(seeds))
  lib.OVERRIDE = Pattern(seed, p, most, every)
  try:
    h(e, **cfg)
  finally:
    lib.OVERRIDE = None
