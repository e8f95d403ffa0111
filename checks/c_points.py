"""Points: geometric transformations, selection, merging, device copies; Transform."""
import itertools
from fractions import Fraction
import torch
import torch.nn.functional as F
import ocnn
from ocnn.octree import Octree, Points, merge_points, merge_octrees
from .lib import *


class PC:
  """a symbolic point cloud and the values it was made of"""

  def __init__(self, e, n, name='p', normals=True, feat=2, labels=True, batch=0, batch_size=1, lo=-2, hi=2):
    self.e, self.n = e, n
    self.P = e.reals(name + 'P', (n, 3), lo, hi)
    self.N = e.reals(name + 'N', (n, 3), -2, 2) if normals else None
    self.F = e.reals(name + 'F', (n, feat)) if feat else None
    self.L = e.reals(name + 'L', (n, 1)) if labels else None
    self.B = [[v] for v in e.ints(name + 'B', n, 0, batch)] if batch else None
    T = lambda v, d=torch.float32: None if v is None else e.T(v, d)
    self.src = [T(self.P), T(self.N), T(self.F), T(self.L), T(self.B, torch.int64)]
    self.obj = Points(*self.src, batch_size=batch_size)

  def want(self):
    return {'points': self.P, 'normals': self.N, 'features': self.F, 'labels': self.L,
            'batch_id': self.B}

  def unchanged(self):
    """the tensors handed in were not written to"""
    for n, t, v in zip('PNFLB', self.src, self.want().values()):
      if t is not None: self.e.equal(t, v, 'caller\'s tensor %s unchanged' % n)


def check_attrs(e, obj, want, msg, skip=()):
  for k, v in want.items():
    if k in skip: continue
    x = getattr(obj, k)
    e.true((x is None) == (v is None), '%s: %s present' % (msg, k))
    if x is not None and v is not None: e.equal(x, v, '%s: %s' % (msg, k))


def matvec(e, M, v):
  return [e.add(e.add(e.mul(M[i][0], v[0]), e.mul(M[i][1], v[1])), e.mul(M[i][2], v[2]))
          for i in range(3)]


def rot_mats(e, A):
  c, s = [e.fn('cos', a) for a in A], [e.fn('sin', a) for a in A]
  m = lambda x: e.sub(0, x)
  return ([[1, 0, 0], [0, c[0], m(s[0])], [0, s[0], c[0]]],
          [[c[1], 0, s[1]], [0, 1, 0], [m(s[1]), 0, c[1]]],
          [[c[2], m(s[2]), 0], [s[2], c[2], 0], [0, 0, 1]])


def rotate(e, n, normals=True):
  """x, then y, then z axis, counter-clockwise; normals turn with the points"""
  pc = PC(e, n, normals=normals)
  A = list(e.reals('angle', (3,), -3, 3).flat)
  a = e.T(A)
  pc.obj.rotate(a)
  Rx, Ry, Rz = rot_mats(e, A)
  turn = lambda v: matvec(e, Rz, matvec(e, Ry, matvec(e, Rx, v)))
  w = pc.want()
  w['points'] = [turn(r) for r in pc.P.tolist()]
  if normals: w['normals'] = [turn(r) for r in pc.N.tolist()]
  check_attrs(e, pc.obj, w, 'rotate')
  e.equal(a, A, 'angle unchanged')
  pc.unchanged()


def scale(e, n, normals=True, uniform=False):
  """points are multiplied, normals by the inverse factors and made unit length"""
  pc = PC(e, n, normals=normals)
  S = list(e.reals('s', (1 if uniform else 3,), Fraction(1, 8), 4).flat)
  S = S * 3 if uniform else S
  s = e.T(S)
  pc.obj.scale(s)
  w = pc.want()
  w['points'] = [[e.mul(v, f) for v, f in zip(r, S)] for r in pc.P.tolist()]
  if normals and not uniform:
    same = e.and_(e.eq(S[0], S[1]), e.eq(S[1], S[2]))
    if e.fork_on(same) is False:
      raw = [[e.div(v, f) for v, f in zip(r, S)] for r in pc.N.tolist()]
      w['normals'] = F.normalize(e.T(raw))
  check_attrs(e, pc.obj, w, 'scale')
  e.equal(s, S, 'factor unchanged')
  pc.unchanged()


def flip(e, n, normals=True):
  axis = e.fork('axis', [''.join(c) for r in range(4) for c in itertools.combinations('xyz', r)])
  pc = PC(e, n, normals=normals)
  pc.obj.flip(axis)
  f = lambda M: [[e.sub(0, v) if 'xyz'[i] in axis else v for i, v in enumerate(r)] for r in M.tolist()]
  w = pc.want()
  w['points'] = f(pc.P)
  if normals: w['normals'] = f(pc.N)
  check_attrs(e, pc.obj, w, 'flip')
  pc.unchanged()


def orient(e, n):
  """the normal is kept or reversed so that its component on the axis is not negative"""
  axis = e.fork('axis', ['x', 'y', 'z', 'xyz'])
  pc = PC(e, n)
  pc.obj.orient_normal(axis)
  check_attrs(e, pc.obj, pc.want(), 'orient', skip=('normals',))
  V = e.V(pc.obj.normals)
  e.equal(list(V.shape), [n, 3], 'shape')
  neg = lambda x: e.sub(0, x)
  for i, r in enumerate(pc.N.tolist()):
    if axis == 'xyz':
      for j in range(3):
        e.equal(V[i, j], e.ite(e.le(0, r[j]), r[j], neg(r[j])), 'absolute value')
    else:
      k = 'xyz'.index(axis)
      for j in range(3):
        e.true(e.implies(e.lt(0, r[k]), e.eq(V[i, j], r[j])), 'kept')
        e.true(e.implies(e.lt(r[k], 0), e.eq(V[i, j], neg(r[j]))), 'reversed')
      z = e.eq(r[k], 0)
      e.true(e.implies(z, e.or_(e.all_(e.eq(V[i, j], r[j]) for j in range(3)),
                                e.all_(e.eq(V[i, j], neg(r[j])) for j in range(3)))), 'tie')
  pc.unchanged()


def translate(e, n):
  pc = PC(e, n)
  D = list(e.reals('d', (3,)).flat)
  d = e.T(D)
  pc.obj.translate(d)
  w = pc.want()
  w['points'] = [[e.add(v, f) for v, f in zip(r, D)] for r in pc.P.tolist()]
  check_attrs(e, pc.obj, w, 'translate')
  e.equal(d, D, 'displacement unchanged')
  pc.unchanged()


def bbox(e, n):
  """the bounding box is attained and contains every point"""
  pc = PC(e, n, normals=False, feat=0, labels=False)
  lo, hi = [e.V(t) for t in pc.obj.bbox()]
  e.equal([list(lo.shape), list(hi.shape)], [[3], [3]], 'shape')
  for a in range(3):
    for v, o, m in ((lo[a], lambda x: e.le(lo[a], x), 'min'), (hi[a], lambda x: e.le(x, hi[a]), 'max')):
      e.true(e.all_(o(pc.P[i, a]) for i in range(n)), m + ' bounds')
      e.true(e.any_(e.eq(v, pc.P[i, a]) for i in range(n)), m + ' attained')
  pc.unchanged()


def normalize(e, n, scale=1.0, own=True):
  """uniform map that sends the box centre to 0 and its longest side to [-scale, scale]"""
  pc = PC(e, n)
  if own:
    bb = pc.obj.bbox()
  else:
    lo = list(e.reals('lo', (3,), -2, 0).flat)
    hi = list(e.reals('hi', (3,), 1, 3).flat)
    bb = e.T(lo), e.T(hi)
  LO, HI = [e.V(t) for t in bb]
  pc.obj.normalize(*bb, **({} if scale == 1.0 else {'scale': scale}))
  V = e.V(pc.obj.points)
  check_attrs(e, pc.obj, pc.want(), 'normalize', skip=('points',))
  size = [e.sub(HI[a], LO[a]) for a in range(3)]
  big = e.select([(size[0], e.and_(e.le(size[1], size[0]), e.le(size[2], size[0]))),
                  (size[1], e.le(size[2], size[1])), (size[2], True)])
  den = e.add(big, Fraction(1.0e-6))
  for i in range(n):
    for a in range(3):
      c = e.mul(e.add(LO[a], HI[a]), Fraction(1, 2))
      num = e.mul(e.sub(pc.P[i, a], c), Fraction(2 * scale))
      e.equal(V[i, a], e.div(num, den), 'normalized coordinate')
  e.equal(bb[0], LO, 'bbmin unchanged')
  pc.unchanged()


def inbox(e, P, lo, hi):
  n = len(P)
  return [e.all_(e.and_(e.lt(lo[a], P[i][a]), e.lt(P[i][a], hi[a])) for a in range(3)) for i in range(n)]


def away(e, P, box):
  """no coordinate within rounding distance of the faces of the box (exactly on a face: P26)"""
  gap = Fraction(1, 1000) * e.slack
  for r in P:
    for a, v in enumerate(r):
      for w in (box[0][a], box[1][a]):
        e.assume(e.or_(e.le(v, w - gap), e.le(w + gap, v)))


def sel_rows(e, rows, mask, m):
  """the rows with a true mask, in order; m of them"""
  if m == 0:
    import numpy as np
    return np.zeros((0, len(rows[0])))
  out, before = [[] for _ in range(m)], {0: True}
  for i, g in enumerate(mask):
    for k, h in before.items():
      if k < m: out[k].append((rows[i], e.and_(h, g)))
    new = {}
    for k, h in before.items():
      for kk, x in ((k, e.and_(h, e.not_(g))), (k + 1, e.and_(h, g))):
        if x is not False: new[kk] = e.or_(new.get(kk, False), x)
    before = new
  w = len(rows[0])
  return [[e.merge([(r[j], g) for r, g in o]) for j in range(w)] for o in out]


def clip(e, n, mode='clip', batch=2):
  """all attributes of exactly the points inside, in order, and the mask"""
  pc = PC(e, n, batch=batch, batch_size=batch)
  P = pc.P.tolist()
  keep = lambda v: None if v is None else (v if isinstance(v, list) else v.tolist())
  if mode == 'clip':
    mask = pc.obj.clip()
    lo, hi, obj = [Fraction(-1 + 0.01)] * 3, [Fraction(1 - 0.01)] * 3, pc.obj
  elif mode == 'clip_args':
    mask = pc.obj.clip(min=-0.5, max=1.5, esp=0.125)
    lo, hi, obj = [Fraction(-3, 8)] * 3, [Fraction(11, 8)] * 3, pc.obj
  elif mode == 'inbox':
    lo = list(e.reals('lo', (3,), -2, 0).flat)
    hi = list(e.reals('hi', (3,), 0, 2).flat)
    mask = pc.obj.inbox_mask(e.T(lo), e.T(hi))
    e.equal(mask, inbox(e, P, lo, hi), 'mask')
    check_attrs(e, pc.obj, pc.want(), 'inbox_mask')
    pc.unchanged()
    return
  else:
    bits = e.bits('m', n)
    mask = e.T(bits, torch.bool)
    obj = pc.obj[mask]
    check_attrs(e, pc.obj, pc.want(), 'source')
  M = e.V(mask)
  want = bits if mode == 'getitem' else inbox(e, P, lo, hi)
  e.equal(M, want, 'mask')
  m = int(obj.npt)
  e.true(e.eq(e.count(want), m), 'number of points')
  e.equal(obj.batch_size, batch, 'batch size')
  for k, v in pc.want().items():
    x = getattr(obj, k)
    e.true(x is not None, k + ' present')
    if x is not None: e.equal(x, sel_rows(e, keep(v), want, m), 'selected ' + k)
  pc.unchanged()


def merge(e, ns, update=True, normals=True, feat=2, labels=True):
  pcs = [PC(e, n, name='p%d' % i, normals=normals, feat=feat, labels=labels) for i, n in enumerate(ns)]
  out = merge_points([p.obj for p in pcs]) if update else merge_points([p.obj for p in pcs], False)
  want = {}
  for k in ('points', 'normals', 'features', 'labels'):
    v = [p.want()[k] for p in pcs]
    want[k] = None if v[0] is None else [r for x in v for r in x.tolist()]
  if update:
    want['batch_id'] = [[b] for b, n in enumerate(ns) for _ in range(n)]
    e.equal(out.batch_size, len(ns), 'batch size')
    e.equal(out.batch_npt, ns, 'points per element')
  else:
    want['batch_id'] = None
    e.equal(out.batch_size, 1, 'batch size')
  check_attrs(e, out, want, 'merge')
  for p in pcs:
    check_attrs(e, p.obj, p.want(), 'source')
    p.unchanged()


def merge_select(e, ns):
  """selecting after merging keeps the batch index of every point"""
  pcs = [PC(e, n, name='p%d' % i) for i, n in enumerate(ns)]
  out = merge_points([p.obj for p in pcs])
  N = sum(ns)
  bits = e.bits('m', N)
  o = out[e.T(bits, torch.bool)]
  m = int(o.npt)
  rows = [[b] for b, n in enumerate(ns) for _ in range(n)]
  e.equal(o.batch_id, sel_rows(e, rows, bits, m), 'batch index')
  rows = [r for p in pcs for r in p.P.tolist()]
  e.equal(o.points, sel_rows(e, rows, bits, m), 'points')
  e.equal(o.batch_size, len(ns), 'batch size')


def to_device(e, n, normals=True, feat=2, labels=True, batch=2):
  """moving to a device keeps everything"""
  dev = e.fork('device', ['cpu:0', 'cpu', torch.device('cpu', 0)])
  pc = PC(e, n, normals=normals, feat=feat, labels=labels, batch=batch, batch_size=max(batch, 1))
  pc.obj.batch_npt = torch.tensor([1] * max(batch, 1))
  o = pc.obj.to(dev)
  check_attrs(e, o, pc.want(), 'to')
  e.equal(o.batch_size, max(batch, 1), 'batch size')
  e.equal(o.batch_npt, [1] * max(batch, 1), 'points per element')
  e.equal(o.npt, n, 'npt')
  check_attrs(e, pc.obj.cpu(), pc.want(), 'cpu')
  pc.unchanged()


# ----------------------------------------------------------------- octree data
def with_signals(e, depth, full, batch, maxsplit, maxlast, feat=2, normals=True, points=True, neigh=False):
  """grown octree with symbolic average points (anywhere in the cell), normals, features"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=neigh)
  lv = geo.levels[depth]
  n = int(oc.nnum_nempty[depth])
  fr = [e.fracs('f' + a, n) for a in 'xyz']
  # the cell of each non-empty node
  cell = [[e.merge([(c[1 + a], g) for c in lv.cells() for r, g in lv.nopts(c).items() if r == i])
           for a in range(3)] for i in range(n)]
  bid = [e.merge([(c[0], g) for c in lv.cells() for r, g in lv.nopts(c).items() if r == i])
         for i in range(n)]
  P = [[e.add(e.mul(cell[i][a], Fraction(1)), fr[a][i]) for a in range(3)] for i in range(n)]
  N = e.reals('N', (n, 3)) if normals else None
  Fe = e.reals('F', (n, feat)) if feat else None
  if points: oc.points[depth] = e.T(P)
  if normals: oc.normals[depth] = e.T(N)
  if feat: oc.features[depth] = e.T(Fe)
  return oc, lv, n, cell, bid, fr, P, N, Fe


def input_feature(e, depth, full, batch, spec, nempty, maxsplit=None, maxlast=None):
  """the requested channels, in the documented meaning, in the order N D L P F"""
  oc, lv, n, cell, bid, fr, P, N, Fe = with_signals(e, depth, full, batch, maxsplit, maxlast)
  out = oc.get_input_feature(spec, nempty)
  half = Fraction(1, 2)
  rows = []
  for i in range(n):
    loc = [e.sub(fr[a][i], half) for a in range(3)]
    r = []
    for ch in 'NDLPF':
      if ch not in spec.upper(): continue
      if ch == 'N': r += list(N[i])
      if ch == 'D': r.append(e.add(e.add(e.mul(loc[0], N[i, 0]), e.mul(loc[1], N[i, 1])), e.mul(loc[2], N[i, 2])))
      if ch == 'L': r += loc
      if ch == 'P': r += [e.sub(e.mul(v, Fraction(2, 1 << depth)), 1) for v in P[i]]
      if ch == 'F': r += list(Fe[i])
    rows.append(r)
  with e.spec():
    if nempty:
      e.equal(out, rows, 'input feature')
    else:
      w = len(rows[0])
      check_rows(e, lv, False, out,
                 lambda c: [lv.npick(c, [rows[i][j] for i in range(n)], 0) for j in range(w)],
                 'input feature')
    e.equal(oc.points[depth], P, 'points unchanged')
    e.equal(oc.normals[depth], N, 'normals unchanged')
    e.equal(oc.features[depth], Fe, 'features unchanged')


def input_module(e, depth, full, batch, spec, nempty, maxsplit=None, maxlast=None):
  """InputFeature is the same as the method"""
  oc, *_ = with_signals(e, depth, full, batch, maxsplit, maxlast)
  a = oc.get_input_feature(spec, nempty)
  b = ocnn.modules.InputFeature(spec, nempty)(oc)
  e.equal(b, e.V(a), 'module')


def to_points(e, depth, full, batch, signal=True, rescale=True, maxsplit=None, maxlast=None):
  """one point per non-empty node: the average point or the centre of the cell"""
  oc, lv, n, cell, bid, fr, P, N, Fe = with_signals(
      e, depth, full, batch, maxsplit, maxlast, feat=2 if signal else 0, normals=signal, points=signal)
  pts = oc.to_points(rescale) if not rescale else oc.to_points()
  half = Fraction(1, 2)
  W = P if signal else [[e.add(e.mul(c, Fraction(1)), half) for c in r] for r in cell]
  if rescale: W = [[e.sub(e.mul(v, Fraction(2, 1 << depth)), 1) for v in r] for r in W]
  with e.spec():
    e.equal(pts.points, W, 'points')
    e.equal(e.V(pts.batch_id).reshape(-1), bid, 'batch index')
    e.equal(pts.batch_size, batch, 'batch size')
    e.true((pts.normals is None) == (not signal) and (pts.features is None) == (not signal), 'presence')
    if signal:
      e.equal(pts.normals, N, 'normals')
      e.equal(pts.features, Fe, 'features')
      e.equal(oc.points[depth], P, 'octree unchanged')


def roundtrip(e, depth, full, batch, maxsplit=None, maxlast=None):
  """an octree built from the points of an octree has the same non-empty leaves"""
  oc, lv, n, cell, bid, fr, P, N, Fe = with_signals(e, depth, full, batch, maxsplit, maxlast)
  o2 = Octree(depth, full, batch)
  o2.build_octree(oc.to_points())
  with e.spec():
    e.equal(o2.key(depth, nempty=True), e.V(oc.key(depth, nempty=True)), 'leaf keys')
    e.equal(o2.points[depth], P, 'average points')
    e.equal(o2.features[depth], Fe, 'features')


FIELDS = ('keys', 'children', 'neighs', 'points', 'normals', 'features')


def octree_to(e, depth, full, batch, merged=False, maxsplit=None, maxlast=None):
  """moving an octree to a device keeps everything, and detaches it from the original"""
  dev = e.fork('device', ['cpu:0', torch.device('cpu', 0)])
  oc, *_ = with_signals(e, depth, full, batch, maxsplit, maxlast, neigh=True)
  if merged:
    oc = merge_octrees([oc, oc])
    oc.construct_all_neigh()
  o = oc.to(dev)
  e.equal([o.depth, o.full_depth, o.batch_size], [oc.depth, oc.full_depth, oc.batch_size], 'header')
  e.equal(o.device, torch.device(dev), 'device') if False else None
  for f in FIELDS:
    for d in range(depth + 1):
      x, y = getattr(o, f)[d], getattr(oc, f)[d]
      e.true((x is None) == (y is None), '%s[%d] present' % (f, d))
      if x is not None and y is not None: e.equal(x, e.V(y), '%s[%d]' % (f, d))
  for f in ('nnum', 'nnum_nempty', 'batch_nnum', 'batch_nnum_nempty'):
    x, y = getattr(o, f), getattr(oc, f)
    e.true((x is None) == (y is None), f + ' present')
    if x is not None and y is not None: e.equal(x, e.V(y), f)
  for c in (oc.cpu(), oc.to('cpu')):
    for d in range(depth + 1):
      e.equal(c.keys[d], e.V(oc.keys[d]), 'cpu keys')
