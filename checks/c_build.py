"""build_octree and merge_octrees on symbolic point clouds."""
import torch
import torch.nn.functional as F
from ocnn.octree import Octree, Points, merge_octrees, merge_points
from .lib import *
from .c_keys import ref_key, vl_lift

LOW48 = (1 << 48) - 1


class Cloud:
  """n points: cells in [0,2^depth)^3 plus a fraction inside the cell"""

  def __init__(self, e, n, depth, name='p', nfeat=0, normals=False, frac=True, cells=None):
    self.e, self.n, self.depth = e, n, depth
    hi = 1 << depth
    self.c = [e.bvs(name + c, n, 0, hi) for c in 'xyz']
    self.f = [e.fracs(name + 'f' + c, n) if frac else [0] * n for c in 'xyz']
    self.feat = e.reals(name + 'F', (n, nfeat)) if nfeat else None
    self.nrm = e.reals(name + 'N', (n, 3)) if normals else None

  def local(self):
    """coordinates in [0, 2^depth)"""
    e = self.e
    return [[e.add(vl_lift(e, self.c[a][i]), self.f[a][i]) for a in range(3)]
            for i in range(self.n)]

  def points(self):
    e, s = self.e, 2.0 ** (1 - self.depth)
    from fractions import Fraction
    k = Fraction(2, 1 << self.depth)
    return [[e.sub(e.mul(v, k), 1) for v in r] for r in self.local()]

  def make(self, idx=None, batch_id=None, batch_size=1, labels=None):
    e = self.e
    pick = (lambda r: r) if idx is None else (lambda r: [r[i] for i in idx])
    pts = e.T(pick(self.points()), torch.float32)
    feat = None if self.feat is None else e.T(pick(self.feat.tolist()), torch.float32)
    nrm = None if self.nrm is None else e.T(pick(self.nrm.tolist()), torch.float32)
    b = None if batch_id is None else e.T([[v] for v in batch_id], torch.int64)
    return Points(pts, nrm, feat, batch_id=b, batch_size=batch_size)

  def key(self, i, d, b=0):
    s = self.depth - d
    return ref_key(self.e, *(self.c[a][i] >> s for a in range(3)), b, d)


def check_structure(e, oc, cloud, full, bids, batch, child=True):
  """the octree has exactly the nodes that the points ask for"""
  depth, n = cloud.depth, cloud.n
  e.equal([oc.depth, oc.full_depth, oc.batch_size], [depth, full, batch], 'header')
  K = {d: e.V(oc.keys[d]) for d in range(depth + 1)}
  C = {d: e.V(oc.children[d]) for d in range(depth + 1)}
  for d in range(depth + 1):
    k, c = K[d], C[d]
    N = k.shape[0]
    e.equal([int(oc.nnum[d]), c.shape[0]], [N, N], 'number of nodes, depth %d' % d)
    pk = [cloud.key(i, d, bids[i]) for i in range(n)]
    if d <= full:
      e.equal(k, [b << 48 | i for b in range(batch) for i in range(8 ** d)],
              'keys of a full level %d' % d)
      if d < full:
        e.equal(c, list(range(N)), 'children of a full level %d' % d)
        e.equal(int(oc.nnum_nempty[d]), N, 'non-empty nodes %d' % d)
        continue
    else:
      e.true(N % 8 == 0, 'sibling groups %d' % d)
      for i in range(0, N, 8):
        e.true(e.eq(k[i] & 7, 0), 'first sibling %d' % d)
        e.equal(k[i:i + 8], [k[i] + j for j in range(8)], 'siblings %d' % d)
        if i:
          e.true(e.lt(k[i - 1], k[i]), 'keys increase %d' % d)
        # the parent of every group holds a point
        e.true(e.any_(e.eq(k[i] >> 3, p >> 3) for p in pk), 'group has a point %d' % d)
      for p in pk:
        e.true(e.any_(e.eq(k[i], p) for i in range(N)), 'cell of a point exists %d' % d)
    # children: non-empty exactly when a point is inside; consecutive ranks
    rank = 0
    want = []
    for i in range(N):
      has = e.any_(e.eq(k[i], p) for p in pk)
      want.append(e.ite(has, rank, -1))
      rank = e.add(rank, e.ite(has, 1, 0))
    e.equal(c, want, 'children %d' % d)
    e.equal(int(oc.nnum_nempty[d]), rank, 'non-empty nodes %d' % d)
    if d < depth and d >= full:
      # the r-th non-empty node owns the r-th sibling group of the next level
      kn = K[d + 1]
      G_ = kn.shape[0] // 8
      e.true(e.eq(rank, G_), 'groups match non-empty nodes %d' % d)
      for i in range(N):
        for g in range(min(G_, i + 1)):
          own = e.eq(c[i], g)
          # batch index kept, coordinates doubled
          want = ((k[i] >> 48) << 48) | ((k[i] & LOW48) << 3)
          e.true(e.implies(own, e.eq(kn[8 * g], want)), 'child group of a node %d' % d)


def build(e, n, depth, full, batch=1, bids=None):
  bids = bids or [0] * n
  cl = Cloud(e, n, depth)
  pts = cl.make(batch_id=bids if batch > 1 else None, batch_size=batch)
  before = snapshot(e, pts.points)
  oc = Octree(depth, full, batch)
  oc.build_octree(pts)
  e.equal(pts.points, before, 'points of the caller are unchanged')
  with e.spec():
    check_structure(e, oc, cl, full, bids, batch)


def signals(e, n, depth, full, nfeat=2, batch=1, bids=None, fixed=False):
  """per node averages over exactly the points inside, and the returned point->node map"""
  bids = bids or [0] * n
  cl = Cloud(e, n, depth, nfeat=nfeat, normals=True)
  pts = cl.make(batch_id=bids if batch > 1 else None, batch_size=batch)
  old = [snapshot(e, t) for t in (pts.points, pts.normals, pts.features)]
  oc = Octree(depth, full, batch)
  idx = oc.build_octree(pts)
  for t, o, m in zip((pts.points, pts.normals, pts.features), old, 'PNF'):
    e.equal(t, o, m + ' of the caller unchanged')
  with e.spec():
    key = e.V(oc.key(depth, nempty=True))
    M = key.shape[0]
    e.equal(oc.points[depth].shape[0], M, 'rows of points')
    loc = cl.local()
    pk = [cl.key(i, depth, bids[i]) for i in range(n)]
    inn = [[e.eq(pk[i], key[m]) for i in range(n)] for m in range(M)]
    I = e.V(idx)
    e.equal(list(I.shape), [n], 'point to node map')
    e.equal(I, [e.select([(m, inn[m][i]) for m in range(M)] + [(-1, True)]) for i in range(n)],
            'node of each point')
    cnt = [e.count(inn[m]) for m in range(M)]
    A = e.V(oc.points[depth])
    B_ = e.V(oc.features[depth])
    for m in range(M):
      for a in range(3):
        s = e.total([(loc[i][a], inn[m][i]) for i in range(n)])
        e.equal(e.mul(A[m, a], cnt[m]), s, 'average point')
      for f in range(nfeat):
        s = e.total([(cl.feat[i, f], inn[m][i]) for i in range(n)])
        e.equal(e.mul(B_[m, f], cnt[m]), s, 'average feature')
    S = [[e.total([(cl.nrm[i, a], inn[m][i]) for i in range(n)]) for a in range(3)]
         for m in range(M)]
  e.equal(oc.normals[depth], F.normalize(e.T(S, torch.float32)), 'normalized mean normal')


FIELDS = ('keys', 'children', 'points', 'features', 'normals')


def same_octree(e, a, b, msg, fields=FIELDS):
  e.equal([a.depth, a.full_depth, a.batch_size], [b.depth, b.full_depth, b.batch_size],
          msg + ' header')
  for d in range(a.depth + 1):
    e.equal([int(a.nnum[d]), int(a.nnum_nempty[d])], [int(b.nnum[d]), int(b.nnum_nempty[d])],
            msg + ' nnum %d' % d)
    for f in fields:
      x, y = getattr(a, f)[d], getattr(b, f)[d]
      e.true((x is None) == (y is None), '%s %s[%d] presence' % (msg, f, d))
      if x is not None and y is not None:
        e.equal(x, y, '%s %s[%d]' % (msg, f, d))


def batched(e, n, depth, full, bids, order=None):
  """building a batch at once == merging the octrees built per sample"""
  B_ = max(bids) + 1
  cl = Cloud(e, n, depth, nfeat=1, normals=True)
  oc = Octree(depth, full, B_)
  order = order or list(range(n))      # the order of the points does not matter
  oc.build_octree(cl.make(order, batch_id=[bids[i] for i in order], batch_size=B_))
  singles = []
  for b in range(B_):
    o = Octree(depth, full, 1)
    o.build_octree(cl.make([i for i in range(n) if bids[i] == b]))
    singles.append(o)
  with e.spec():
    same_octree(e, oc, merge_octrees(singles), 'batched build vs merge')


def merge_pipeline(e, ns, depth, full):
  """merge_points followed by one build == per-sample builds followed by merge_octrees"""
  cl = Cloud(e, sum(ns), depth, nfeat=1)
  parts, off = [], 0
  for m in ns:
    parts.append(list(range(off, off + m)))
    off += m
  pts = merge_points([cl.make(p) for p in parts])
  oc = Octree(depth, full, len(ns))
  oc.build_octree(pts)
  singles = []
  for p in parts:
    o = Octree(depth, full)
    o.build_octree(cl.make(p))
    singles.append(o)
  with e.spec():
    same_octree(e, oc, merge_octrees(singles), 'merge_points then build')


def merge(e, ns, depth, full, neigh=False):
  """merge_octrees keeps every sample, in order, and does not touch its inputs"""
  cs = [Cloud(e, m, depth, name='p%d' % i, nfeat=1, normals=True) for i, m in enumerate(ns)]
  ocs = []
  for c in cs:
    o = Octree(depth, full)
    o.build_octree(c.make())
    ocs.append(o)
  old = [{(f, d): snapshot(e, getattr(o, f)[d]) for f in FIELDS for d in range(depth + 1)
          if getattr(o, f)[d] is not None} for o in ocs]
  oldn = [(snapshot(e, o.nnum), snapshot(e, o.nnum_nempty)) for o in ocs]
  m = merge_octrees(ocs)
  with e.spec():
    for o, s, n in zip(ocs, old, oldn):
      for (f, d), v in s.items():
        e.equal(getattr(o, f)[d], v, 'input %s unchanged' % f)
      e.equal(o.nnum, n[0], 'input nnum unchanged')
      e.equal(o.nnum_nempty, n[1], 'input nnum_nempty unchanged')
    e.equal([m.depth, m.full_depth, m.batch_size], [depth, full, len(ns)], 'header')
    for d in range(depth + 1):
      kn, cn = [], []
      ne = 0
      for b, o in enumerate(ocs):
        k, c = e.V(o.keys[d]), e.V(o.children[d])
        kn += [v | (b << 48) for v in k]
        cn += [e.ite(e.le(0, v), e.add(v, ne), -1) for v in c]
        ne += int(o.nnum_nempty[d])
        e.equal(int(m.batch_nnum[d, b]), int(o.nnum[d]), 'batch_nnum')
        e.equal(int(m.batch_nnum_nempty[d, b]), int(o.nnum_nempty[d]), 'batch_nnum_nempty')
      e.equal(m.keys[d], kn, 'keys')
      e.equal(m.children[d], cn, 'children')
      e.equal(int(m.nnum[d]), len(kn), 'nnum')
      e.equal(int(m.nnum_nempty[d]), ne, 'nnum_nempty')
    for f in ('points', 'features', 'normals'):
      e.equal(getattr(m, f)[depth],
              [r for o in ocs for r in e.V(getattr(o, f)[depth]).tolist()], f)
