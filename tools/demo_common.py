"""Helpers of the demonstrations (copied next to each demo)."""
import os
import sys
sys.path.insert(0, os.getcwd())
import torch
import ocnn
from ocnn.octree import Octree, Points, merge_octrees, merge_points, init_octree, xyz2key, key2xyz


def build(cells, depth, full=1, batch=None, feats=None, normals=None):
  """octree with points at the centres of the given cells (x, y, z) of the finest level"""
  c = torch.tensor(cells, dtype=torch.float32).view(-1, 3)
  pts = (c + 0.5) * 2.0 ** (1 - depth) - 1.0
  b = None if batch is None else torch.tensor(batch).view(-1, 1)
  P = Points(pts, normals, feats, batch_id=b, batch_size=1 if batch is None else max(batch) + 1)
  o = Octree(depth, full, P.batch_size)
  o.build_octree(P)
  o.construct_all_neigh()
  return o


def cells(o, d, nempty=False):
  x, y, z, b = o.xyzb(d, nempty)
  return [tuple(int(v) for v in r) for r in zip(b, x, y, z)]


def rnd(*shape, seed=0):
  g = torch.Generator().manual_seed(seed)
  return torch.randn(*shape, generator=g, dtype=torch.float64)


def close(a, b, msg='', tol=1e-4):
  a, b = torch.as_tensor(a), torch.as_tensor(b)
  assert a.shape == b.shape, (msg, a.shape, b.shape)
  d = float((a.double() - b.double()).abs().max()) if a.numel() else 0.0
  assert d < tol, (msg, d)


OFFS = [(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]


def kernel_offs(k):
  if k == '222': return [(i, j, l) for i in (0, 1) for j in (0, 1) for l in (0, 1)]
  return [o for o in OFFS if all(s == '3' or v == 0 for s, v in zip(k, o))]


def conv_ref(o, d, x, w, kernel, stride=1, nempty=False):
  """reference sparse convolution on a dictionary of cells; rows of the output nodes"""
  src = {c: i for i, c in enumerate(cells(o, d, nempty))}
  K = kernel_offs(kernel)
  if stride == 1:
    rows = list(src)
  else:
    rows = [(b, 2 * X, 2 * Y, 2 * Z) for b, X, Y, Z in cells(o, d - 1, True)]
  out = torch.zeros(len(rows), w.shape[2], dtype=x.dtype)
  for r, (b, X, Y, Z) in enumerate(rows):
    for k, (i, j, l) in enumerate(K):
      s = src.get((b, X + i, Y + j, Z + l))
      if s is not None: out[r] += x[s] @ w[k]
  return out
