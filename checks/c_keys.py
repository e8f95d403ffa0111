"""Shuffled keys: codec, order and parent relation."""
import torch
from ocnn.octree import xyz2key, key2xyz
from .lib import *


def bit(e, v, i):
  return (v >> i) & 1


def ref_key(e, x, y, z, b, depth):
  """bitwise interleaving written down independently (x most significant)"""
  k = 0
  for i in range(depth):
    k = k | (bit(e, x, i) << (3 * i + 2)) | (bit(e, y, i) << (3 * i + 1)) | (bit(e, z, i) << 3 * i)
  return k | (b << 48)


def codec(e, depth, batch=True, kind='long', n=1):
  """key == interleaved bits; decoding returns the coordinates; parent = key >> 3."""
  hi = 1 << depth
  x, y, z = (e.bvs(c, n, 0, hi) for c in 'xyz')
  b = e.bvs('b', n, 0, 32768) if batch else [0] * n
  if kind == 'float':
    # float coordinates inside the cell: truncated
    f = [e.fracs('f' + c, n) for c in 'xyz']
    tx, ty, tz = (e.T([e.add(vl_lift(e, u), w) for u, w in zip(c, g)], torch.float32)
                  for c, g in zip((x, y, z), f))
  else:
    dt = {'long': torch.int64, 'int': torch.int32, 'short': torch.int16}[kind]
    tx, ty, tz = (e.T(c, dt) for c in (x, y, z))
  tb = e.T(b, torch.int64) if batch else None
  key = xyz2key(tx, ty, tz, tb, depth)
  e.equal(key, [ref_key(e, x[i], y[i], z[i], b[i], depth) for i in range(n)], 'key')
  X, Y, Z, B_ = key2xyz(key, depth)
  for t, w, m in ((X, x, 'x'), (Y, y, 'y'), (Z, z, 'z'), (B_, b, 'batch')):
    e.equal(t, w, 'decoded ' + m)
  # parent cell (batch bits aside)
  if depth > 1:
    pk = (key & ((1 << 48) - 1)) >> 3
    PX, PY, PZ, _ = key2xyz(pk, depth - 1)
    for t, w, m in ((PX, x, 'x'), (PY, y, 'y'), (PZ, z, 'z')):
      e.equal(t, [v >> 1 for v in w], 'parent ' + m)


def vl_lift(e, u):
  if not e.sym: return u
  from symtorch import value as vl
  return vl.lift(u)


def inverse(e, depth, n=1):
  """every key of the depth is reached: encoding the decoded key gives it back, and the
  decoded coordinates are in range"""
  k = e.bvs('k', n, 0, 1 << 3 * depth)
  b = e.bvs('b', n, 0, 32768)
  key = e.T([kk | (bb << 48) for kk, bb in zip(k, b)], torch.int64)
  x, y, z, c = key2xyz(key, depth)
  e.equal(xyz2key(x, y, z, c, depth), key, 'encode(decode(key))')
  e.equal(c, b, 'batch index')
  for t in (x, y, z):
    for v in e.V(t).flat:
      e.true(e.and_(e.le(0, v), e.lt(v, 1 << depth)), 'coordinate in range')


def order(e, depth):
  """keys order the nodes by batch, then parent, then octant"""
  v = {c: e.bvs(c, 2, 0, 1 << depth) for c in 'xyz'}
  b = e.bvs('b', 2, 0, 32768)
  T = lambda l: e.T(l, torch.int64)
  k = e.V(xyz2key(T(v['x']), T(v['y']), T(v['z']), T(b), depth))
  # most significant differing bit plane decides, x before y before z
  less = False
  same = e.eq(b[0], b[1])
  less = e.lt(b[0], b[1])
  for i in range(depth - 1, -1, -1):
    for c in 'xyz':
      p, q = bit(e, v[c][0], i), bit(e, v[c][1], i)
      less = e.or_(less, e.and_(same, e.lt(p, q)))
      same = e.and_(same, e.eq(p, q))
  e.true(e.iff(e.lt(k[0], k[1]), less), 'key order')
  e.true(e.iff(e.eq(k[0], k[1]), same), 'equal keys')
  e.true(e.le(0, k[0]), 'non-negative')


def scalar_batch(e, depth, b):
  """the batch index may be given as an int"""
  x, y, z = (e.bvs(c, 1, 0, 1 << depth) for c in 'xyz')
  T = lambda l: e.T(l, torch.int64)
  key = xyz2key(T(x), T(y), T(z), b, depth)
  e.equal(key, [ref_key(e, x[0], y[0], z[0], b, depth)], 'key')
  e.equal(key2xyz(key, depth)[3], [b], 'decoded batch')
