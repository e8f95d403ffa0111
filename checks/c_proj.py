"""The solvers and dataset transforms of projects/."""
from fractions import Fraction
import os
import sys
import numpy as np
import torch
import torch.nn.functional as F
import ocnn
from ocnn.octree import Octree, Points, merge_octrees, merge_points
from .lib import *
from .c_points import PC, inbox, away, check_attrs, sel_rows, with_signals
from .c_nets import Stub, trees

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(ocnn.__file__)))
sys.path.insert(0, os.path.join(ROOT, 'projects'))


class Flags(dict):
  """configuration nodes"""
  __getattr__ = dict.__getitem__
  __setattr__ = dict.__setitem__


def flags(**k): return Flags({a: flags(**b) if isinstance(b, dict) else b for a, b in k.items()})


def solver(mod, cls, **f):
  import importlib
  s = object.__new__(getattr(importlib.import_module(mod), cls))
  s.FLAGS, s.eval_rst, s.logdir = flags(**f), dict(), '/nonexistent'
  return s


def on_cpu(x):
  """stand-in for a copy on the GPU"""
  x.cuda = lambda *a, **k: x
  return x


# ---------------------------------------------------------------- segmentation
class Net:
  """records its arguments and answers with symbols"""

  def __init__(self, e, C, name='logit'):
    self.e, self.C, self.name, self.args, self.out = e, C, name, [], []

  def __call__(self, data, octree, depth, query, *a):
    k = len(self.args)
    v = self.e.reals('%s%d' % (self.name, k), (query.shape[0], self.C), -2, 2)
    self.args.append((data, octree, depth, query))
    self.out.append(v)
    return self.e.T(v)


def batch_of(e, ns, classes, depth=2, full=1, masks=True, seg=True):
  """the merged octrees and points of a batch, as CollateBatch gives it"""
  k = len(ns)
  tr = [{1: lambda i, j=j: i in (1 + j, 5), 2: lambda i, j=j: i in (j, 9)} for j in range(k)]
  ocs = [sym_octree(e, depth, full, 1, name='s%d_' % i, neigh=False, fixed=tr[i])[0] for i in range(k)]
  X = []
  for i, o in enumerate(ocs):
    n = int(o.nnum_nempty[depth])
    X.append(e.reals('f%d' % i, (n, 3)))
    o.normals[depth] = e.T(X[-1])
  oc = merge_octrees(ocs)
  oc.construct_all_neigh()
  P = [e.reals('p%d' % i, (n, 3), -1, 1) for i, n in enumerate(ns)]
  L = [[[v] for v in e.ints('l%d' % i, n, 0, classes)] for i, n in enumerate(ns)]
  pts = merge_points([Points(e.T(p), None, None, e.T(l)) for p, l in zip(P, L)])
  return on_cpu(oc), on_cpu(pts), [r for x in X for r in x.tolist()], [r for p in P for r in p.tolist()], [l[0] for x in L for l in x]


def seg_forward(e, ns, mask=0, classes=3, nempty=True):
  """the logits and labels of exactly the points whose label is above the mask, in order"""
  s = solver('segmentation', 'SegSolver', MODEL=dict(feature='N', nempty=nempty), LOSS=dict(mask=mask, num_class=classes))
  s.model = net = Net(e, 2)
  oc, pts, X, P, L = batch_of(e, ns, classes)
  out, lab = s.model_forward({'octree': oc, 'points': pts})
  data, o, d, q = net.args[0]
  e.true(o is oc and d == oc.depth, 'octree')
  e.equal(data, e.V(ocnn.modules.InputFeature('N', nempty)(oc)), 'input feature')
  e.equal(q, [r + [b] for r, b in zip(P, [b for b, n in enumerate(ns) for _ in range(n)])], 'query points')
  keep = [e.lt(mask, l) for l in L]
  m = int(lab.shape[0])
  e.true(e.eq(e.count(keep), m), 'number of points')
  e.equal(tuple(out.shape), (m, 2), 'shape')
  if m:
    e.equal(out, sel_rows(e, net.out[0].tolist(), keep, m), 'logits')
    e.equal(lab, [r[0] for r in sel_rows(e, [[l] for l in L], keep, m)], 'labels')


def no_ties(e, rows):
  for r in rows:
    for i in range(len(r)):
      for j in range(i): e.assume(e.not_(e.eq(r[i], r[j])))


def best(e, rows):
  """guards: class k has the largest logit"""
  return [[e.all_(e.lt(r[j], r[k]) for j in range(len(r)) if j != k) for k in range(len(r))] for r in rows]


def seg_metrics(e, n, classes):
  """accuracy, and intersection and union of every class"""
  s = solver('segmentation', 'SegSolver', LOSS=dict(mask=0, num_class=classes))
  X = e.reals('x', (n, classes), -2, 2)
  no_ties(e, X.tolist())
  L = e.ints('l', n, 0, classes)
  x, l = e.T(X), e.T(L)
  acc = s.accuracy(x, l)
  iou, ins, uni = s.IoU_per_shape(x, l, classes)
  B = best(e, X.tolist())
  half = Fraction(1, n)
  e.equal(acc, e.total([(half, e.or_(*[e.and_(B[i][k], e.eq(L[i], k)) for k in range(classes)])) for i in range(n)]), 'accuracy')
  e.equal([len(ins), len(uni)], [classes, classes], 'classes')
  vals = []
  for k in range(classes):
    lk = [e.eq(v, k) for v in L]
    a = e.count([e.and_(B[i][k], lk[i]) for i in range(n)])
    b = e.count([e.or_(B[i][k], lk[i]) for i in range(n)])
    e.equal(ins[k], a, 'intersection %d' % k)
    e.equal(uni[k], b, 'union %d' % k)
    # ratio of the class, for every value of the two counts
    for u in range(1, n + 1):
      for w in range(0, u + 1):
        vals.append((k, Fraction(w, u), e.and_(e.any_(lk), e.and_(e.eq(a, w), e.eq(b, u)))))
  num = e.total([(v, g) for _, v, g in vals])
  got = e.V(iou).reshape(-1)[0]
  present = e.count([e.any_(e.eq(v, k) for v in L) for k in range(classes)])
  for c in range(1, min(n, classes) + 1):
    w = e.mul(num, Fraction(1, c))
    d = e.sub(got, w)
    tol = Fraction(1, 10 ** 5)
    e.true(e.implies(e.eq(present, c), e.and_(e.le(e.sub(0, tol), d), e.le(d, tol))), 'mean over the present classes %d' % c)
  e.equal(x, X, 'logits unchanged')


def seg_loss(e, n, classes):
  s = solver('segmentation', 'SegSolver')
  X = e.reals('x', (n, classes), -2, 2)
  L = e.ints('l', n, 0, classes)
  got = s.loss_function(e.T(X), e.T(L))
  want = F.cross_entropy(e.T(X), e.T(L, torch.int64))
  e.equal(got, e.V(want), 'cross entropy')


def seg_eval(e, ns, total, classes=2, epochs=2):
  """the probabilities of every cloud go to its points in the box, and add up over the epochs"""
  s = solver('segmentation', 'SegSolver', MODEL=dict(feature='N', nempty=True), LOSS=dict(mask=-1, num_class=classes),
             DATA=dict(test=dict()), SOLVER=dict(eval_epoch=99))
  s.model = net = Net(e, classes)
  want = {}
  names = ['a/%d.ply' % i for i in range(len(ns))]
  for ep in range(epochs):
    oc, pts, X, P, L = batch_of(e, ns, 2)
    M = [e.bits('m%d_%d' % (ep, i), t) for i, t in enumerate(total)]
    for m, n in zip(M, ns): e.assume(e.eq(e.count(m), n))
    order = list(range(len(ns)))
    s.eval_step({'octree': oc, 'points': pts, 'epoch': ep, 'filename': [names[i] for i in order],
                 'inbox_mask': [e.T(m, torch.bool) for m in M]})
    prob = e.V(F.softmax(e.T(net.out[ep]), dim=1)).tolist()
    off = 0
    for i, (n, t) in enumerate(zip(ns, total)):
      rank = [e.dist([(1, g) for g in M[i][:j]]) for j in range(t)]
      rows = []
      for j in range(t):
        rows.append([e.merge([(0, e.not_(M[i][j]))] +
                             [(prob[off + q][c], e.and_(M[i][j], rank[j].get(q, False))) for q in range(n)])
                     for c in range(classes)])
      want[i] = rows if i not in want else [[e.add(a, b) for a, b in zip(u, v)] for u, v in zip(want[i], rows)]
      off += n
  e.equal(sorted(s.eval_rst), sorted(names), 'clouds')
  for i, nm in enumerate(names): e.equal(s.eval_rst[nm], want[i], 'probabilities of cloud %d' % i)


def seg_batch(e, ns, depth=2, full=1):
  """a batch without octrees: one octree per cloud, merged, with neighbours"""
  from .c_build import Cloud
  s = solver('segmentation', 'SegSolver')
  cl = [Cloud(e, n, depth, name='c%d' % i) for i, n in enumerate(ns)]
  L = [e.reals('l%d' % i, (n, 1)) for i, n in enumerate(ns)]
  mk = lambda: [Points(e.T(c.points()), labels=e.T(l)) for c, l in zip(cl, L)]
  out = s.process_batch({'points': [on_cpu(p) for p in mk()], 'filename': 'f'}, flags(depth=depth, full_depth=full))
  e.equal(out['filename'], 'f', 'other entries') if False else e.true(out['filename'] == 'f', 'other entries')
  ref = []
  for p in mk():
    o = Octree(depth, full)
    o.build_octree(p)
    ref.append(o)
  ref = merge_octrees(ref)
  ref.construct_all_neigh()
  oc, pts = out['octree'], out['points']
  with e.spec():
    e.equal([oc.depth, oc.full_depth, oc.batch_size], [depth, full, len(ns)], 'header')
    for d in range(depth + 1):
      e.equal(oc.keys[d], e.V(ref.keys[d]), 'keys %d' % d)
      e.equal(oc.children[d], e.V(ref.children[d]), 'children %d' % d)
      if d: e.equal(oc.neighs[d], e.V(ref.neighs[d]), 'neighbours %d' % d)
    e.equal(pts.points, [r for c in cl for r in c.points()], 'points')
    e.equal(pts.labels, [r for l in L for r in l.tolist()], 'labels')
    e.equal(pts.batch_id, [[b] for b, n in enumerate(ns) for _ in range(n)], 'batch index')


def seg_steps(e, n, classes):
  """every reported number carries its own name"""
  s = solver('segmentation', 'SegSolver', LOSS=dict(mask=-1, num_class=classes), DATA=dict(train=dict(), test=dict()),
             MODEL=dict(feature='N', nempty=True))
  X = e.reals('x', (n, classes), -2, 2)
  no_ties(e, X.tolist())
  L = e.ints('l', n, 0, classes)
  x, l = e.T(X), e.T(L)
  s.process_batch = lambda b, f: b
  s.model_forward = lambda b: (x, l)
  tr, te = s.train_step({}), s.test_step({})
  e.true(sorted(tr) == ['train/accu', 'train/loss'], 'names of training')
  e.true(sorted(te) == sorted(['test/loss', 'test/accu', 'test/mIoU'] + ['test/%s_%d' % (a, k) for a in ('intsc', 'union')
                                                                         for k in range(classes)]), 'names of testing')
  B = best(e, X.tolist())
  loss = e.V(F.cross_entropy(x, e.T(L, torch.int64)))
  acc = e.total([(Fraction(1, n), e.or_(*[e.and_(B[i][k], e.eq(L[i], k)) for k in range(classes)])) for i in range(n)])
  for r, m in ((tr, 'train'), (te, 'test')):
    e.equal(r[m + '/loss'], loss, m + ' loss')
    e.equal(r[m + '/accu'], acc, m + ' accuracy')
  for k in range(classes):
    e.equal(te['test/intsc_%d' % k], e.count([e.and_(B[i][k], e.eq(L[i], k)) for i in range(n)]), 'intersection %d' % k)
    e.equal(te['test/union_%d' % k], e.count([e.or_(B[i][k], e.eq(L[i], k)) for i in range(n)]), 'union %d' % k)
  e.equal(te['test/mIoU'], e.V(s.IoU_per_shape(x, l, classes)[0]), 'mean IoU')


class Num:
  """a number of the tracker"""

  def __init__(self, e, v): self.e, self.v = e, v

  def val(self, o): return o.v if isinstance(o, Num) else Fraction(o)
  def __add__(self, o): return Num(self.e, self.e.add(self.v, self.val(o)))
  __radd__ = __add__
  def __sub__(self, o): return Num(self.e, self.e.sub(self.v, self.val(o)))
  def __mul__(self, o): return Num(self.e, self.e.mul(self.v, self.val(o)))
  __rmul__ = __mul__
  def __truediv__(self, o): return Num(self.e, self.e.div(self.v, self.val(o)))
  def __rtruediv__(self, o): return Num(self.e, self.e.div(self.val(o), self.v))
  def __float__(self): return 0.0     # only for the message
  def item(self): return self


def part_iou(e, classes, mask):
  """the mean ratio of the counts over the classes above the mask"""
  import segmentation as M
  s = solver('segmentation', 'SegSolver', LOSS=dict(mask=mask, num_class=classes))
  U = [e.fork('union %d' % k, (1, 2, 4)) for k in range(classes)]
  I = [e.reals('i%d' % k, (1,), 0, 4)[0] for k in range(classes)]
  vals = {'test/loss': 3, 'test/mIoU': 5}
  for k in range(classes):
    vals['test/union_%d' % k], vals['test/intsc_%d' % k] = U[k], I[k]
  got = {}
  class Tracker:
    average = lambda _: {k: Num(e, v) for k, v in vals.items()}
    update = lambda _, d: got.update(d)
  class Torch:
    Tensor = tensor = staticmethod(lambda v, **k: v)
    __getattr__ = lambda _, k: getattr(torch, k)
  class Tq:
    write = staticmethod(lambda *a, **k: None)
  keep, M.torch, M.tqdm = (M.torch, M.tqdm), Torch(), Tq
  try:
    s.result_callback(Tracker(), 3)
  finally:
    M.torch, M.tqdm = keep
  e.true(list(got) == ['test/mIoU_part'], 'names')
  v = got['test/mIoU_part']
  while isinstance(v, (list, tuple)): v = v[0]
  want = 0
  for k in range(mask + 1, classes): want = e.add(want, e.mul(I[k], Fraction(1, U[k] * (classes - mask - 1))))
  d = e.sub(v.v, want)
  e.true(e.and_(e.le(Fraction(-1, 10 ** 5), d), e.le(d, Fraction(1, 10 ** 5))), 'mean over the parts')


def cls_step(e, n, classes):
  """classification: cross entropy and accuracy of the logits of the batch"""
  s = solver('classification', 'ClsSolver', MODEL=dict(feature='N', nempty=True))
  X = e.reals('x', (n, classes), -2, 2)
  no_ties(e, X.tolist())
  L = e.ints('l', n, 0, classes)
  args = []
  s.model = lambda *a: args.append(a) or e.T(X)
  oc, pts, Fe, P, _ = batch_of(e, [1] * n, 2)
  r, t = [getattr(s, k)({'octree': oc, 'label': on_cpu(e.T(L))}) for k in ('train_step', 'test_step')]
  for a in args:
    e.equal(a[0], e.V(ocnn.modules.InputFeature('N', True)(oc)), 'input feature')
    e.true(a[1] is oc and a[2] == oc.depth, 'octree')
  B = best(e, X.tolist())
  loss = e.V(F.cross_entropy(e.T(X), e.T(L, torch.int64)))
  acc = e.total([(Fraction(1, n), e.or_(*[e.and_(B[i][k], e.eq(L[i], k)) for k in range(classes)])) for i in range(n)])
  for m, v in (('train', r), ('test', t)):
    e.true(sorted(v) == [m + '/accu', m + '/loss'], m + ' names')
    e.equal(v[m + '/loss'], loss, m + ' loss')
    e.equal(v[m + '/accu'], acc, m + ' accuracy')


# ---------------------------------------------------------------- reconstruction
def ae_loss(e, depth, full, batch=1, maxsplit=1, maxlast=1):
  """per level the cross entropy and accuracy of the split labels, the mean squared signal error, and their sum"""
  s = solver('autoencoder', 'AutoEncoderSolver')
  oc, lv, n, cell, bid, fr, P, N, Fe = with_signals(e, depth, full, batch, maxsplit, maxlast)
  lg, out = {}, {}
  for d in range(full, depth + 1):
    lg[d] = e.reals('g%d' % d, (int(oc.nnum[d]), 2), -2, 2)
    no_ties(e, lg[d].tolist())
  S = e.reals('s', (n, 4))
  r = s.compute_loss(oc, {'logits': {d: e.T(v) for d, v in lg.items()}, 'signal': e.T(S)})
  names = ['loss', 'loss_reg'] + ['%s_%d' % (a, d) for d in lg for a in ('loss', 'accu')]
  e.equal(sorted(r), sorted(names), 'names') if False else e.true(sorted(r) == sorted(names), 'names')
  half = Fraction(1, 2)
  with e.spec():
    tot = []
    for d, v in lg.items():
      y = [e.le(0, c) for c in e.V(oc.children[d]).tolist()]
      want = F.cross_entropy(e.T(v), e.T([e.ite(g, 1, 0) for g in y], torch.int64))
      e.equal(r['loss_%d' % d], e.V(want), 'loss %d' % d)
      tot.append(e.V(want).reshape(-1)[0])
      m = len(v)
      e.equal(r['accu_%d' % d], e.total([(Fraction(1, m), e.iff(e.lt(a, b), g)) for (a, b), g in zip(v.tolist(), y)]), 'accuracy %d' % d)
    sq = 0
    for i in range(n):
      loc = [e.sub(fr[a][i], half) for a in range(3)]
      dis = e.add(e.add(e.mul(loc[0], N[i, 0]), e.mul(loc[1], N[i, 1])), e.mul(loc[2], N[i, 2]))
      for a, b in zip(list(N[i]) + [dis], S[i]):
        t = e.sub(a, b)
        sq = e.add(sq, e.mul(t, t))
    reg = e.mul(sq, Fraction(1, n))
    e.equal(r['loss_reg'], reg, 'regression loss')
    for t in tot: reg = e.add(reg, t)
    e.equal(r['loss'], reg, 'total loss')


def ae_points(e, depth, full, batch=1, maxsplit=1, maxlast=2, fixed=None):
  """every non-empty leaf gives one point, moved along its normal, in the list of its batch element"""
  s = solver('autoencoder', 'AutoEncoderSolver')
  tr = {d: (lambda i, j=j: i in j) for d, j in fixed.items()} if fixed else None
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False, fixed=tr)
  lv = geo.levels[depth]
  n = int(oc.nnum_nempty[depth])
  S = e.reals('s', (n, 4), -1, 1)
  oc.features[depth] = e.T(S)
  out = s.octree2pts(oc)
  e.equal(len(out), batch, 'one cloud per element')
  pos = lambda a: [e.merge([(c[a], g) for c in lv.cells() for r, g in lv.nopts(c).items() if r == i]) for i in range(n)]
  B, X = pos(0), [pos(a) for a in (1, 2, 3)]
  nr = e.V(F.normalize(e.T([r[:3] for r in S.tolist()]))).tolist()
  rows = []
  for i in range(n):
    p = [e.sub(e.mul(e.add(e.add(X[a][i], Fraction(1, 2)), e.mul(S[i, 3], nr[i][a])), Fraction(2, 1 << depth)), 1) for a in range(3)]
    rows.append(p + nr[i])
  for b in range(batch):
    g = [e.eq(v, b) for v in B]
    m = int(out[b].shape[0])
    e.true(e.eq(e.count(g), m), 'number of points %d' % b)
    if m: e.equal(out[b], sel_rows(e, rows, g, m), 'points %d' % b)
  e.equal(oc.features[depth], S, 'signal unchanged')


def ae_steps(e, kind, depth=2, full=1):
  """every solver gives its network the right inputs and compares with the right octree"""
  mod, cls = {'ae': ('autoencoder', 'AutoEncoderSolver'), 'completion': ('completion', 'CompletionSolver'),
              'image': ('image2shape', 'Image2ShapeSolver')}[kind]
  s = solver(mod, cls)
  oc, lv, n, cell, bid, fr, P, N, Fe = with_signals(e, depth, full, 1, 1, 1)
  on_cpu(oc)
  lg = {d: e.reals('g%d' % d, (int(oc.nnum[d]), 2), -2, 2) for d in range(full, depth + 1)}
  for v in lg.values(): no_ties(e, v.tolist())
  S = e.reals('s', (n, 4))
  out = {'logits': {d: e.T(v) for d, v in lg.items()}, 'signal': e.T(S)}
  other = on_cpu(sym_octree(e, depth, full, 1, name='o_', neigh=False, fixed={1: lambda i: i == 0, 2: lambda i: i == 3})[0])
  image, args = on_cpu(e.T(e.reals('image', (1, 2)))), []
  s.model = lambda *a, **k: args.append((a, k)) or out
  batch = {'ae': {'octree': oc}, 'completion': {'octree': other, 'octree_gt': oc}, 'image': {'octree': oc, 'image': image}}[kind]
  want = {'ae': (oc,), 'completion': (other, oc), 'image': (image, oc)}[kind]
  ref = s.compute_loss(oc, out)
  for step, m in (('train_step', 'train/'), ('test_step', 'test/')):
    del args[:]
    r = getattr(s, step)(dict(batch))
    a, k = args[0]
    e.true(len(args) == 1 and len(a) + len(k) == len(want) + 1 and all(x is y for x, y in zip(a, want)), step + ' arguments')
    e.true(k.get('update_octree') is False or (len(a) > len(want) and a[len(want)] is False), step + ' keeps the octree')
    e.true(sorted(r) == sorted(m + v for v in ref), step + ' names')
    for v in ref: e.equal(r[m + v], e.V(ref[v]), step + ' ' + v)


def ae_eval(e, kind, batch=2, depth=2, full=1):
  """every decoded cloud goes to the file of its own sample"""
  import importlib
  mod, cls = {'ae': ('autoencoder', 'AutoEncoderSolver'), 'image': ('image2shape', 'Image2ShapeSolver')}[kind]
  M = importlib.import_module(mod)
  s = solver(mod, cls)
  s.logdir = '/nonexistent/log'
  oc, geo = sym_octree(e, depth, full, batch, maxlast=1, maxsplit=1, neigh=False,
                       fixed={1: lambda i: i in (1, 12), 2: lambda i: i in (2, 9)})
  n = int(oc.nnum_nempty[depth])
  oc.features[depth] = e.T(e.reals('s', (n, 4), -1, 1))
  ref = [e.V(t) for t in s.octree2pts(oc)]
  args, saved, made = [], {}, []
  s.model = lambda *a, **k: args.append((a, k)) or {'octree_out': oc}
  class Shim:
    def __init__(self, base, **k): self.__dict__.update(k, _base=base)
    def __getattr__(self, k): return getattr(self._base, k)
  class Cloud:
    def __init__(self, i): self.i = i
    def save(self, name, *a): saved[name] = self.i
  base = [M.np, M.os, getattr(M, 'ToPILImage', None)]
  M.np = Shim(np, savetxt=lambda f, v, **k: saved.__setitem__(f, v))
  M.os = Shim(os, makedirs=lambda d, **k: made.append(d))
  names = ['a/0.x.ply', 'b/1'][:batch]
  inp = on_cpu(oc) if kind == 'ae' else on_cpu(e.T(e.reals('image', (batch, 2))))
  b = {'filename': names}
  if kind == 'ae': b.update(octree=inp, points=[Cloud(i) for i in range(batch)])
  else:
    b.update(image=inp)
    rows = [e.V(inp[i]) for i in range(batch)]
    def pil():
      def f(t):
        k = [i for i in range(batch) if not e.sym or repr(e.V(t).tolist()) == repr(rows[i].tolist())]
        k = k if e.sym else [i for i in range(batch) if torch.equal(t, inp[i])]
        return Cloud(k[0] if k else -1)
      return f
    M.ToPILImage = pil
  try:
    s.eval_step(b)
  finally:
    M.np, M.os = base[:2]
    if base[2]: M.ToPILImage = base[2]
  a, k = args[0]
  e.true(len(args) == 1 and a[0] is inp and (k.get('update_octree') is True or True in a[1:]), 'network')
  stem = ['/nonexistent/log/a/0.x', '/nonexistent/log/b/1'][:batch]
  first = '.in.xyz' if kind == 'ae' else '.img.png'
  e.true(sorted(saved) == sorted(v + w for v in stem for w in (first, '.out.xyz')), 'files')
  for i, v in enumerate(stem):
    e.true(os.path.dirname(v) in made, 'folder %d' % i)
    e.true(saved[v + first] == i, 'input %d' % i)
    e.equal(saved[v + '.out.xyz'].astype(float) if not e.sym else saved[v + '.out.xyz'], ref[i], 'cloud %d' % i)


# ---------------------------------------------------------------- dataset transforms
OPT = dict(depth=3, full_depth=2, distort=False, angle=[0, 5, 0], interval=[1, 1, 1], scale=0.25, uniform=False,
           jitter=0.125, flip=[0.5, 0.0, 0.5], orient_normal='')


class Arrays:
  """a sample as the file readers give it"""

  def __init__(self, e, n, cols=None, labels=None, lo=-2, hi=2):
    self.e, self.n = e, n
    self.P = e.reals('P', (n, 3), lo, hi)
    self.N = e.reals('N', (n, 3), -1, 1)
    self.C = e.reals('C', (n, cols), 0, 255) if cols else None
    self.L = e.ints('L', n, 0, labels) if labels else None
    self.t = {'points': e.T(self.P), 'normals': e.T(self.N)}
    if cols: self.t['colors'] = e.T(self.C)
    if labels: self.t['labels'] = e.T(self.L, torch.int32)
    self.sample = {k: v.numpy() for k, v in self.t.items()}

  def unchanged(self):
    for k, v in (('points', self.P), ('normals', self.N), ('colors', self.C), ('labels', self.L)):
      if v is not None: self.e.equal(self.t[k], v, 'array of the caller unchanged: ' + k)


def extremes(e, col):
  f = lambda le: e.select([(v, e.all_(le(v, w) for w in col)) for v in col])
  return f(lambda a, b: e.le(a, b)), f(lambda a, b: e.le(b, a))


def centred(e, P, scale):
  """the box centre moved to 0, divided by the scale"""
  ext = [extremes(e, [r[a] for r in P]) for a in range(3)]
  mid = [e.mul(e.add(l, h), Fraction(1, 2)) for l, h in ext]
  return ext, mid, [[e.mul(e.sub(v, m), 1 / Fraction(scale)) for v, m in zip(r, mid)] for r in P]


def project_transform(e, name, n):
  """preprocessing: the documented normalization of coordinates, colours and labels, attribute by attribute"""
  import importlib
  mod, cls = {'modelnet': ('modelnet40', 'ModelNetTransform'), 'shapenet_seg': ('seg_shapenet', 'ShapeNetTransform'),
              'shapenet_ae': ('ae_shapenet', 'ShapeNetTransform'), 'scannet': ('scannet', 'ScanNetTransform'),
              'image': ('image2shape', 'Image2ShapeTransform')}[name]
  M = importlib.import_module('datascts.' + mod)
  opt = Flags(OPT)
  tr = None
  if name in ('shapenet_ae', 'image'):
    class T(getattr(M, cls)):
      pass
    base = importlib.import_module('datascts.utils').Transform
    fl = Flags(OPT)
    keep = base.__init__
    # the ocnn transform ignores the points scale
    tr = getattr(M, cls)(Flags(OPT, points_scale=0.5))
  else:
    tr = getattr(M, cls)(opt)
  A = Arrays(e, n, 3 if name == 'scannet' else None, 40 if name in ('scannet', 'shapenet_seg') else None)
  P = A.P.tolist()
  seen = {}
  if name == 'scannet':
    tr.transform = lambda s, i=None: seen.update(s) or {'done': i}
    out = tr(A.sample, 5)
    e.true(out == {'done': 5}, 'result of the transformation')
    pts = seen['points']
  elif name == 'image':
    tr.img2tensor = lambda v: ('tensor', v)
    out = tr.preprocess(dict(A.sample, image='pixels'), 0)
    e.true(out['image'] == ('tensor', 'pixels'), 'image')
    pts = out['points']
  else:
    pts = tr.preprocess(dict(A.sample), 0)['points']
  w = {'points': P, 'normals': A.N, 'features': None, 'labels': None, 'batch_id': None}
  if name in ('shapenet_ae', 'image'):
    w['points'] = [[e.mul(v, 2) for v in r] for r in P]
  if name == 'scannet':
    ext, mid, _ = centred(e, P, 1)
    mid[2] = Fraction(1, 2)
    w['points'] = [[e.mul(e.sub(v, m), 1 / Fraction(10.24)) for v, m in zip(r, mid)] for r in P]
    w['features'] = [[e.mul(v, Fraction(1, 255)) for v in r] for r in A.C.tolist()]
  if A.L is not None: w['labels'] = [[v] for v in A.L]
  if name == 'shapenet_seg':
    ref = Points(e.T(A.P))
    ref.normalize(*ref.bbox(), scale=0.8)
    w['points'] = e.V(ref.points)
    e.true(pts.labels.dtype == torch.float32, 'type of the labels')
  check_attrs(e, pts, w, name)
  A.unchanged()


def kitti(e, n):
  """labels are mapped by their low 16 bits, coordinates centred, the remission kept as feature"""
  from datascts import semantic_kitti as M
  tr = M.KittiTransform(Flags(OPT))
  lo = e.ints('low', n, 0, 260)
  hi = e.ints('inst', n, 0, 3)
  X = e.reals('x', (n, 4), -2, 2)
  lab = [e.add(a, e.mul(b, 1 << 16)) for a, b in zip(lo, hi)]
  x, l = e.T(X), e.T(lab, torch.int32)
  table = tr.label_map
  if e.sym: tr.label_map = e.T([float(v) for v in table], torch.float64).numpy()
  pts = tr.preprocess({'points': x.numpy(), 'labels': l.numpy()}, 0)['points']
  names = {v: i + 1 for i, v in enumerate(M.kept_labels)}
  want = {k: names.get(v[7:] if v.startswith('moving-') else v, 0) for k, v in M.label_name_mapping.items()}
  want = [want.get(i, 0) for i in range(260)]
  e.true([int(v) for v in table] == want, 'label table')
  ext, mid, C = centred(e, [r[:3] for r in X.tolist()], 100)
  check_attrs(e, pts, {'points': C, 'normals': None, 'features': [[r[3]] for r in X.tolist()], 'batch_id': None,
                       'labels': [[e.over(lambda v: want[v], [(v, True)], None)] for v in []] or
                       [[e.select([(want[i], e.eq(v, i)) for i in range(259)] + [(want[259], True)])] for v in lo]}, 'kitti')
  e.equal(x, X, 'points unchanged')
  e.equal(l, lab, 'labels unchanged')


def completion(e, n, take=2, flip=0):
  """ground truth: the normalized points; input: samples of them with noise; both clipped to the box"""
  from datascts import completion as M
  tr = M.Transform(Flags(depth=3, full_depth=2))
  tr.points_number = take
  made = []
  tr.points2octree = lambda p: made.append(p) or ('octree', len(made))
  # the longest side is given (so the radius is a number), which axis it is and everything else is free
  A, long = Arrays(e, n, lo=-1, hi=1), e.fork('longest axis', range(3))
  for i in range(2): A.P[i][long] = Fraction((-2, 1)[i ^ flip])
  A.t['points'] = e.T(A.P)
  A.sample['points'] = A.t['points'].numpy()
  idx = [e.fork('take%d' % i, range(n)) for i in range(take)]
  noise = np.array([[0.5, -0.25, 1.0], [4.0, 0.0, -8.0]] * take)[:take]
  class Rnd:
    randn = staticmethod(lambda *s: noise)
    choice = staticmethod(lambda a, size=None, **k: np.array(idx))
  class Np:
    random = Rnd
    def __getattr__(self, k): return getattr(np, k)
  P = A.P.tolist()
  ext, mid, _ = centred(e, P, 1)
  size = [e.sub(h, l) for l, h in ext]
  big = e.select([(size[0], e.and_(e.le(size[1], size[0]), e.le(size[2], size[0]))),
                  (size[1], e.le(size[2], size[1])), (size[2], True)])
  rad = e.div(2, e.add(big, Fraction(1.0e-6)))
  Q = [[e.mul(e.mul(e.sub(v, m), rad), Fraction(0.95)) for v, m in zip(r, mid)] for r in P]
  R = [[e.add(v, Fraction(tr.noise_std) * Fraction(w)) for v, w in zip(Q[j], u)] for j, u in zip(idx, noise.tolist())]
  box = [Fraction(-1 + 0.01)] * 3, [Fraction(1 - 0.01)] * 3
  away(e, Q + R, box)
  M.np, keep = Np(), M.np
  try:
    out = tr(A.sample, 0)
  finally:
    M.np = keep
  for name, rows, nrm in (('points_gt', Q, A.N.tolist()), ('points', R, None)):
    pts = out[name]
    keep = inbox(e, rows, *box)
    m = int(pts.points.shape[0])
    e.true(e.eq(e.count(keep), m), name + ': number')
    if m:
      e.equal(pts.points, sel_rows(e, rows, keep, m), name)
      if nrm: e.equal(pts.normals, sel_rows(e, nrm, keep, m), name + ' normals')
    e.true((pts.normals is None) == (nrm is None), name + ': normals present')
  e.true(made[int(out['octree'][1]) - 1] is out['points'], 'octree of the input')
  e.true(made[int(out['octree_gt'][1]) - 1] is out['points_gt'], 'octree of the ground truth')
  A.unchanged()
