"""The data pipeline: Transform, CollateBatch and the tensor utilities."""
from fractions import Fraction
import math
import torch
import ocnn
from ocnn.octree import Octree, Points, merge_octrees
from .lib import *
from .c_build import Cloud, check_structure
from .c_points import inbox, away, PC, check_attrs

LO, HI = Fraction(-1 + 0.01), Fraction(1 - 0.01)


def options(depth=3, full=1, distort=False, **k):
  o = dict(depth=depth, full_depth=full, distort=distort, angle=[0, 5, 0], interval=[1, 1, 1],
           scale=0.25, uniform=False, jitter=0.125, flip=[0.5, 0.0, 0.5])
  o.update(k)
  return o


def pipeline(e, n, depth, full, orient=''):
  """a sample becomes the octree of exactly its points inside the box"""
  cl = Cloud(e, n, depth)
  P = cl.points()
  far = e.bits('far', n)
  P = [[e.ite(far[i], e.add(v, 2), v) if a == i % 3 else v for a, v in enumerate(r)] for i, r in enumerate(P)]
  N = e.reals('N', (n, 3), -1, 1)
  tr = ocnn.dataset.Transform(**options(depth, full, orient_normal=orient))
  src, nrm = e.T(P), e.T(N)
  sample = {'points': src.numpy(), 'normals': nrm.numpy(), 'label': 7, 'filename': 'a/b'}
  out = tr(sample, 3)
  with e.spec():
    keep = inbox(e, P, [LO] * 3, [HI] * 3)
    e.equal(out['inbox_mask'], keep, 'mask of the points in the box')
  e.assume(e.any_(keep))
  on = [i for i in range(n) if e.fork_on(keep[i])]
  with e.spec():
    e.equal(out['label'], 7, 'label'), e.true(out['filename'] == 'a/b', 'file name')
    pts, oc = out['points'], out['octree']
    e.equal(pts.points, [P[i] for i in on], 'points in the box')
    if orient:
      a = 'xyz'.index(orient)
      got = e.V(pts.normals)
      for r, i in enumerate(on):
        kept = e.all_(e.eq(got[r, j], N[i][j]) for j in range(3))
        rev = e.all_(e.eq(got[r, j], e.sub(0, N[i][j])) for j in range(3))
        e.true(e.or_(kept, rev), 'normal kept or reversed')
        e.true(e.le(0, got[r, a]), 'oriented')
    else:
      e.equal(pts.normals, [N[i].tolist() for i in on], 'normals of the points')
      e.equal(nrm, N, 'normals of the caller unchanged')
    e.equal(src, P, 'points of the caller unchanged')
    sub = Cloud.__new__(Cloud)
    sub.e, sub.n, sub.depth = e, len(on), depth
    sub.c = [[c[i] for i in on] for c in cl.c]
    sub.f = [[c[i] for i in on] for c in cl.f]
    check_structure(e, oc, sub, full, [0] * len(on), 1)


def distort(e, n, orient=''):
  """flip, rotation, translation and scaling with the drawn parameters, then the box"""
  pc = PC(e, n, feat=0, labels=False)
  tr = ocnn.dataset.Transform(**options(distort=True, orient_normal=orient))
  S = e.fork('factors', [(Fraction(1, 2), Fraction(5, 4), 2), (1, 1, 1), (Fraction(3, 2), Fraction(3, 4), Fraction(3, 4))])
  S = [Fraction(v) for v in S]
  Jt = e.reals('j', (3,), -1, 1).tolist()
  axis = e.fork('axis', ['', 'x', 'yz'])
  ang = [0.0, 0.0, math.pi / 2] if e.fork('turn', [0, 1]) else [0.0, 0.0, 0.0]
  tr.rnd_parameters = lambda: (torch.tensor(ang), e.T(S), e.T(Jt), axis)
  ref = Points(e.T(pc.P), e.T(pc.N))
  if axis: ref.flip(axis)
  ref.rotate(torch.tensor(ang))
  ref.translate(e.T(Jt))
  ref.scale(e.T(S))
  if orient: ref.orient_normal(orient)
  P, N = e.V(ref.points), e.V(ref.normals)
  away(e, P.tolist(), ([LO] * 3, [HI] * 3))
  out = tr.transform({'points': pc.obj, 'x': 1}, 0)
  keep = inbox(e, P, [LO] * 3, [HI] * 3)
  e.equal(out['inbox_mask'], keep, 'mask')
  on = [i for i in range(n) if e.fork_on(keep[i])]
  e.equal(tuple(out['points'].points.shape), (len(on), 3), 'number of points')
  e.equal(out['x'], 1, 'other entries')
  if on:
    e.equal(out['points'].points, [P[i] for i in on], 'distorted points')
    e.equal(out['points'].normals, [N[i] for i in on], 'distorted normals')
  pc.unchanged()


def parameters(e, uniform=False, angle=(0, 5, 180), interval=(1, 5, 90), flip=(0.5, 0.0, 1.0), scale=0.25, jitter=0.5):
  """the drawn parameters stay in the documented ranges"""
  tr = ocnn.dataset.Transform(**options(distort=True, angle=list(angle), interval=list(interval),
                                        uniform=uniform, flip=list(flip), scale=scale, jitter=jitter))
  a, s, j, f = tr.rnd_parameters()
  A, S, Jt = e.V(a), e.V(s), e.V(j)
  e.equal([list(x.shape) for x in (A, S, Jt)], [[3]] * 3, 'shapes')
  eps = Fraction(1, 10 ** 5)
  near = lambda x, v: e.and_(e.le(e.sub(Fraction(v), eps), x), e.le(x, e.add(Fraction(v), eps)))
  for i in range(3):
    k = angle[i] // interval[i]
    e.true(e.any_(near(A[i], m * interval[i] * math.pi / 180) for m in range(-k, k + 1)), 'angle %d' % i)
    e.true(e.and_(e.le(1 - Fraction(scale), S[i]), e.le(S[i], 1 + Fraction(scale))), 'scale %d' % i)
    e.true(e.and_(e.le(-Fraction(jitter), Jt[i]), e.le(Jt[i], Fraction(jitter))), 'jitter %d' % i)
    if uniform: e.equal(S[i], S[0], 'uniform scale')
  e.true(set(f) <= set('xyz') and len(set(f)) == len(f), 'axes')
  for i, c in enumerate('xyz'):
    if flip[i] == 0: e.true(c not in f, 'never flipped ' + c)
    if flip[i] == 1: e.true(c in f, 'always flipped ' + c)


def collate(e, depth, full, k=2, merge=True, ns=(2, 1, 2), maxsplit=1, maxlast=1):
  """a batch holds every sample's octree, points and labels in order"""
  ocs = [sym_octree(e, depth, full, 1, name='s%d_' % i, neigh=False, maxsplit=maxsplit, maxlast=maxlast)[0]
         for i in range(k)]
  pcs = [PC(e, ns[i], name='p%d' % i) for i in range(k)]
  X = [e.reals('x%d' % i, (int(o.nnum_nempty[depth]), 2)) for i, o in enumerate(ocs)]
  for o, x in zip(ocs, X): o.features[depth] = e.T(x)
  keys = [[snapshot(e, t) for t in o.keys] for o in ocs]
  batch = [{'octree': o, 'points': p.obj, 'label': 5 + i, 'filename': 'f%d' % i, 'inbox_mask': i,
            'octree_gt': ocs[k - 1 - i], 'points_gt': pcs[k - 1 - i].obj}
           for i, (o, p) in enumerate(zip(ocs, pcs))]
  out = ocnn.dataset.CollateBatch(merge_points=merge)(batch)
  e.equal(sorted(out), sorted(batch[0]), 'entries')
  oc = out['octree']
  with e.spec():
    e.equal([oc.batch_size, oc.depth, oc.full_depth], [k, depth, full], 'header')
    for d in range(depth + 1):
      rows = []
      for b, o in enumerate(ocs):
        rows += [e.add(x, b << 48) for x in keys[b][d].tolist()]
        e.equal(o.keys[d], keys[b][d], 'sample unchanged')
      e.equal(oc.keys[d], rows, 'keys %d' % d)
    e.equal(oc.features[depth], [r for x in X for r in x.tolist()], 'features')
    e.equal(out['label'], [5 + i for i in range(k)], 'labels')
    e.true(out['label'].dtype == torch.int64, 'type of the labels')
    e.true(out['filename'] == ['f%d' % i for i in range(k)], 'file names')
    e.true(out['inbox_mask'] == list(range(k)), 'other entries')
    gt = out['octree_gt']
    e.equal([gt.batch_size, gt.depth, gt.full_depth], [k, depth, full], 'header of the second octree')
    for d in range(depth + 1):
      rows = [e.add(x, b << 48) for b in range(k) for x in keys[k - 1 - b][d].tolist()]
      e.equal(gt.keys[d], rows, 'keys of the second octree %d' % d)
      e.true(d == 0 or (gt.neighs[d] is not None and len(gt.neighs[d]) > 0), 'neighbours of the second octree')
    e.equal(gt.features[depth], [r for x in X[::-1] for r in x.tolist()], 'features of the second octree')
  ref = merge_octrees(ocs)
  ref.construct_all_neigh()
  for d in range(1, depth + 1):
    e.true(oc.neighs[d] is not None and len(oc.neighs[d]) > 0, 'neighbours %d' % d)
    e.equal(oc.neighs[d], e.V(ref.neighs[d]), 'neighbours %d' % d)
  if not merge:
    e.true(all(x is p.obj for x, p in zip(out['points'], pcs)) and len(out['points']) == k, 'list of points')
    e.true(all(x is p.obj for x, p in zip(out['points_gt'], pcs[::-1])) and len(out['points_gt']) == k, 'second list of points')
  else:
    pt = out['points']
    w = {a: [r for p in pcs for r in getattr(p, b).tolist()] for a, b in
         (('points', 'P'), ('normals', 'N'), ('features', 'F'), ('labels', 'L'))}
    w['batch_id'] = [[i] for i in range(k) for _ in range(ns[i])]
    check_attrs(e, pt, w, 'merged')
    e.equal(pt.batch_size, k, 'batch size')
    e.equal(pt.batch_npt, list(ns[:k]), 'points per cloud')
    e.equal(out['points_gt'].points, [r for p in pcs[::-1] for r in p.P.tolist()], 'points of the second cloud')
    e.equal(out['points_gt'].batch_npt, list(ns[:k])[::-1], 'points per second cloud')
  for p in pcs: p.unchanged()


# ---------------------------------------------------------------- tensor utilities
def t_cumsum(e, shape, dim, exclusive, dtype='int64'):
  X = e.reals('x', shape) if dtype.startswith('float') else None
  n = math.prod(shape)
  if X is None:
    import numpy as np
    X = np.array(e.ints('x', n, -3, 4), dtype=object).reshape(shape)
  x = e.T(X, getattr(torch, dtype))
  r = ocnn.utils.cumsum(x, dim, exclusive)
  ax = dim % len(shape)
  want = list(shape)
  want[ax] += 1 if exclusive else 0
  e.equal(list(r.shape), want, 'shape')
  import numpy as np
  Y, R = np.moveaxis(X, ax, 0).reshape(shape[ax], -1), None
  rows = []
  acc = [0] * Y.shape[1]
  if exclusive: rows.append(list(acc))
  for q in Y.tolist():
    acc = [e.add(a, b) for a, b in zip(acc, q)]
    rows.append(acc)
  e.equal(r.movedim(ax, 0).reshape(len(rows), -1), rows, 'partial sums')
  e.equal(x, X, 'input unchanged')


def t_scatter(e, rows, cols, dim, size=None, out=False, bcast=True):
  """every source row is added to the row that its index names"""
  import numpy as np
  shape = (rows, cols)
  X = e.reals('x', shape)
  m = shape[dim % 2]
  k = size or 3
  if bcast:
    I = e.ints('i', m, 0, k)
    at = lambda r, c: I[r] if dim % 2 == 0 else I[c]
    idx = e.T(I, torch.int64)
  else:
    I = np.array(e.ints('i', rows * cols, 0, k), dtype=object).reshape(shape)
    at = lambda r, c: I[r, c]
    idx = e.T(I, torch.int64)
  if size is None and not out:
    e.assume(e.any_(e.eq(v, k - 1) for v in (I if bcast else I.flat)))
  os = (k, cols) if dim % 2 == 0 else (rows, k)
  O = e.reals('o', os) if out else None
  o = e.T(O) if out else None
  x = e.T(X)
  r = ocnn.utils.scatter_add(x, idx, dim, o, size)
  want = [[(O[a, b] if out else 0) for b in range(os[1])] for a in range(os[0])]
  for a in range(os[0]):
    for b in range(os[1]):
      if dim % 2 == 0: src = [(X[q, b], e.eq(at(q, b), a)) for q in range(rows)]
      else: src = [(X[a, q], e.eq(at(a, q), b)) for q in range(cols)]
      want[a][b] = e.add(want[a][b], e.total(src))
  e.equal(r, want, 'sums')
  e.equal(x, X, 'source unchanged')
  if out: e.equal(o, want, 'written to the given output')


def t_scatter_nd(e, shape, dim, idx='1', size=None, out=False):
  """the same for any number of dimensions; the index has one axis (that of dim), or misses the last axes"""
  import itertools
  import numpy as np
  X = e.reals('x', shape)
  ax = dim % len(shape)
  k = size or 2
  ishape = (shape[ax],) if idx == '1' else shape[:int(idx)]
  I = np.array(e.ints('i', math.prod(ishape), 0, k), dtype=object).reshape(ishape)
  at = (lambda p: I[p[ax]]) if idx == '1' else (lambda p: I[p[:int(idx)]])
  if size is None and not out: e.assume(e.any_(e.eq(v, k - 1) for v in I.flat))
  os = shape[:ax] + (k,) + shape[ax + 1:]
  O = e.reals('o', os) if out else None
  o = e.T(O) if out else None
  x, i = e.T(X), e.T(I, torch.int64)
  r = ocnn.utils.scatter_add(x, i, dim, o, size)
  want = np.empty(os, dtype=object)
  for q in itertools.product(*map(range, os)):
    src = []
    for j in range(shape[ax]):
      p = q[:ax] + (j,) + q[ax + 1:]
      src.append((X[p], e.eq(at(p), q[ax])))
    want[q] = e.add(O[q] if out else 0, e.total(src))
  e.equal(list(r.shape), list(os), 'shape')
  e.equal(r, want, 'sums')
  e.equal(x, X, 'source unchanged')
  e.equal(i, I, 'index unchanged')


def t_grid(e, lo, hi):
  g = ocnn.utils.range_grid(lo, hi)
  e.equal(g, [[x, y, z] for x in range(lo, hi + 1) for y in range(lo, hi + 1) for z in range(lo, hi + 1)], 'grid')


def t_div(e, dtype='int64', n=4, tensor=False):
  """division rounds towards zero"""
  X = e.ints('x', n, -9, 10)
  Y = e.ints('y', n, 1, 5) if tensor else [3] * n
  x = e.T(X, getattr(torch, dtype))
  r = e.V(ocnn.utils.trunc_div(x, e.T(Y, getattr(torch, dtype)) if tensor else 3))
  for i in range(n):
    q = r[i]
    for a in range(-9, 10):
      for b in (range(1, 5) if tensor else [3]):
        w = abs(a) // b * (1 if a >= 0 else -1)
        e.true(e.implies(e.and_(e.eq(X[i], a), e.eq(Y[i], b)), e.eq(q, w)), 'quotient')
  e.equal(x, X, 'input unchanged')


def t_resize(e):
  ks = [[3], [3, 1], [3, 1, 2], [2, 3, 3]]
  k = e.fork('k', range(len(ks)))
  src = list(ks[k])
  want = (src + [src[-1]] * 3)[:3]
  keep = list(src)
  e.true(list(ocnn.utils.resize_with_last_val(src)) == want, 'resized')
  e.true(src == keep, 'list of the caller unchanged')
