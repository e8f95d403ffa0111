"""Padding, pooling, interpolation, normalisation, voxels, alignment."""
from fractions import Fraction
import torch
import ocnn
from .lib import *
from .c_conv import set_param, rows_of

NEG = float('-inf')


@intact
def pad(e, depth, full, batch, C=2, val=None, maxsplit=None, maxlast=None):
  """octree_pad spreads rows over the non-empty nodes and fills the others; depad inverts it"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False)
  for d in range(full, depth + 1):
    lv = geo.levels[d]
    n = rows_of(oc, lv, True)
    X = e.reals('x%d' % d, (n, C))
    Z = e.reals('z%d' % d, (lv.n, C))
    x, z = e.T(X), e.T(Z)
    kw = {} if val is None else {'val': val}
    full_ = ocnn.nn.octree_pad(x, oc, d, **kw)
    back = ocnn.nn.octree_depad(full_, oc, d)
    sel = ocnn.nn.octree_depad(z, oc, d)
    with e.spec():
      fill = 0 if val is None else val
      check_rows(e, lv, False, full_, lambda c: [
          e.ite(lv.nonempty(c), lv.npick(c, X[:, j]), fill) for j in range(C)], 'octree_pad')
      e.equal(back, X, 'octree_depad(octree_pad(x)) = x')
      check_rows(e, lv, True, sel, lambda c: [lv.pick(c, Z[:, j]) for j in range(C)],
                 'octree_depad')
      e.equal(x, X, 'input unchanged')
      e.equal(z, Z, 'input unchanged')


def fmax(e, xs):
  """maximum of (value, guard) alternatives, at least one guard holds"""
  best, have = None, False
  for v, g in xs:
    if best is None:
      best, have = v, g
      continue
    take = e.and_(g, e.or_(e.not_(have), e.lt(best, v)))
    best = e.ite(take, v, best)
    have = e.or_(have, g)
  return best


def pool_tree(e, depth, full, batch, maxsplit, maxlast, last=True):
  """an octree in which every non-empty inner node has a non-empty child, as in every octree
  built from points"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False,
                       last=last)
  if last:
    lv = geo.levels[depth]
    for i in range(0, lv.n, 8):
      e.assume(e.any_(lv.ne[i:i + 8]))
  return oc, geo


@intact
def max_pool(e, depth, full, batch, nempty, C=1, maxsplit=None, maxlast=None, warm=False):
  oc, geo = pool_tree(e, depth, full, batch, maxsplit, maxlast, nempty)
  lv, up = geo.levels[depth], geo.levels[depth - 1]
  n = rows_of(oc, lv, nempty)
  X = e.reals('x', (n, C))
  x = e.T(X)
  out = ocnn.nn.octree_max_pool(x, oc, depth, nempty)
  out2, ind = ocnn.nn.octree_max_pool(x, oc, depth, nempty, return_indices=True)
  m = e.make(lambda: ocnn.nn.OctreeMaxPool(nempty))
  if warm: m(filled(e, n, C), twin(oc, full, nempty, False), depth)
  out3 = m(x, oc, depth)
  with e.spec():
    exists, _, pick, opts = lv.sel(nempty)
    def best(p, j):
      return fmax(e, [(pick(child_cell(p, k), X[:, j]), exists(child_cell(p, k)))
                      for k in range(8)])
    def want(p):
      return [best(p, j) if nempty else e.ite(up.nonempty(p), best(p, j), 0) for j in range(C)]
    for o, msg in ((out, 'function'), (out2, 'with indices'), (out3, 'module')):
      check_rows(e, up, nempty, o, want, 'max pool (%s)' % msg)
    # the indices point at a child that exists and attains the maximum
    I = e.V(ind)
    nu = rows_of(oc, up, True)
    e.equal(list(I.shape), [nu, C], 'shape of the indices')
    for r in range(nu):
      for j in range(C):
        e.true(e.all_(e.implies(up.nopts(p)[r], e.any_(
            e.and_(e.eq(I[r, j], k), exists(child_cell(p, k)),
                   e.eq(pick(child_cell(p, k), X[:, j]), best(p, j))) for k in range(8)))
            for p in up.cells() if r in up.nopts(p)), 'index of the maximum')
    e.equal(x, X, 'input unchanged')


@intact
def max_unpool(e, depth, full, batch, nempty, C=1, maxsplit=None, maxlast=None):
  """unpooling puts every value at the child the index names, zero elsewhere"""
  oc, geo = pool_tree(e, depth, full, batch, maxsplit, maxlast, nempty)
  lv, up = geo.levels[depth], geo.levels[depth - 1]
  nu = rows_of(oc, up, True)
  I = [[v] for v in e.ints('i', nu, 0, 8)]
  assert C == 1
  n = rows_of(oc, up, nempty)
  X = e.reals('x', (n, C))
  x, ind = e.T(X), e.T(I, torch.int64)
  out = ocnn.nn.octree_max_unpool(x, ind, oc, depth - 1, nempty)
  m = e.make(lambda: ocnn.nn.OctreeMaxUnpool(nempty))
  out2 = m(x, ind, oc, depth - 1)
  with e.spec():
    _, _, upick, _ = up.sel(nempty)
    def want(c):
      p = parent_cell(c)
      named = e.any_(e.and_(g, e.eq(I[r][0], octant(c))) for r, g in up.nopts(p).items() if r < nu)
      return [e.ite(named, upick(p, X[:, 0]), 0)]
    check_rows(e, lv, nempty, out, want, 'max unpool')
    check_rows(e, lv, nempty, out2, want, 'max unpool (module)')
    e.equal(x, X, 'input unchanged')
    e.equal(ind, I, 'indices unchanged')


@intact
def unpool_pool(e, depth, full, batch, nempty, C=1, maxsplit=None, maxlast=None):
  """max_unpool with the indices of max_pool: the maximum stays where it was"""
  oc, geo = pool_tree(e, depth, full, batch, maxsplit, maxlast, nempty)
  lv, up = geo.levels[depth], geo.levels[depth - 1]
  n = rows_of(oc, lv, nempty)
  X = e.reals('x', (n, C))
  x = e.T(X)
  p, ind = ocnn.nn.octree_max_pool(x, oc, depth, nempty, return_indices=True)
  y = ocnn.nn.octree_max_unpool(p, ind, oc, depth - 1, nempty)
  p2 = ocnn.nn.octree_max_pool(y, oc, depth, nempty)
  with e.spec():
    Y = e.V(y)
    e.equal(list(Y.shape), [n, C], 'shape')
    for i in range(n):
      for j in range(C):
        e.true(e.or_(e.eq(Y[i, j], 0), e.eq(Y[i, j], X[i, j])), 'kept value or zero')


@intact
def avg_pool(e, depth, full, batch, kernel, stride, nempty, C=1, maxsplit=None, maxlast=None, warm=False):
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, last=nempty, maxlast=maxlast)
  lv, up = geo.levels[depth], geo.levels[depth - 1]
  n = rows_of(oc, lv, nempty)
  X = e.reals('x', (n, C))
  x = e.T(X)
  ks = [int(kernel[0])] if len(set(kernel)) == 1 else [int(v) for v in kernel]
  out = ocnn.nn.octree_avg_pool(x, oc, depth, kernel, stride, nempty)
  m = e.make(lambda: ocnn.nn.OctreeAvgPool(ks, stride, nempty))
  if warm: m(filled(e, n, C), twin(oc, full, nempty), depth)
  out2 = m(x, oc, depth)
  with e.spec():
    exists, _, pick, _ = lv.sel(nempty)
    def want(c):
      cells = [shift(c, o) for o in KOFFS[kernel]]
      cells = [s for s in cells if inside(s, depth)]
      ones = [(1, exists(s)) for s in cells]
      return [e.over(e.total([(pick(s, X[:, j]), True) for s in cells]), ones,
                     lambda k: 1 / (k + Fraction(1e-8))) for j in range(C)]
    for o, msg in ((out, 'average pool'), (out2, 'average pool (module)')):
      if stride == 1:
        check_rows(e, lv, nempty, o, want, msg)
      else:
        check_rows(e, up, True, o, lambda p: want(child_cell(p, 0)), msg)
    e.equal(x, X, 'input unchanged')


@intact
def global_pool(e, depth, full, batch, nempty, C=2, maxsplit=None, maxlast=None, at=None, warm=False):
  """mean over the nodes of each sample; zero for a sample without nodes"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False)
  d = depth if at is None else at
  lv = geo.levels[d]
  n = rows_of(oc, lv, nempty)
  X = e.reals('x', (n, C))
  x = e.T(X)
  out = ocnn.nn.octree_global_pool(x, oc, d, nempty)
  m = e.make(lambda: ocnn.nn.OctreeGlobalPool(nempty))
  if warm: m(filled(e, n, C), twin(oc, full, True, False), d)
  out2 = m(x, oc, d)
  with e.spec():
    _, _, _, opts = lv.sel(nempty)
    own = {b: [False] * n for b in range(batch)}
    for c in lv.cells():
      for k, g in opts(c).items():
        if k < n: own[c[0]][k] = e.or_(own[c[0]][k], g)
    want = []
    for b in range(batch):
      want.append([e.over(e.total([(X[i, j], own[b][i]) for i in range(n)]),
                          [(1, g) for g in own[b]], lambda k: Fraction(1, max(k, 1)))
                   for j in range(C)])
    e.equal(out, want, 'global pool')
    e.equal(out2, want, 'global pool (module)')
    e.equal(x, X, 'input unchanged')


# ------------------------------------------------------------ interpolation
def query(e, nq, depth, batch, lo=0, hi=None, name='q'):
  """points cell + fraction in [0, 2^depth) (or beyond) with a batch index"""
  hi = (1 << depth) if hi is None else hi
  cell = [[v for v in e.ints('%s%s' % (name, a), nq, lo, hi)] for a in 'xyz']
  frac = [e.fracs('%sf%s' % (name, a), nq) for a in 'xyz']
  b = e.ints(name + 'b', nq, 0, batch)
  P = [[e.add(e.mul(cell[a][i], Fraction(1)), frac[a][i]) for a in range(3)] + [b[i]]
       for i in range(nq)]
  return cell, frac, b, P


@intact
def nearest(e, depth, full, batch, nempty, C=1, nq=1, maxsplit=None, maxlast=None, at=None,
            bound=False, module=False, warm=False):
  """the value of the node whose cell contains the point, zero if there is none"""
  d = depth if at is None else at
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False,
                       last=nempty or d < depth)
  lv = geo.levels[d]
  n = rows_of(oc, lv, nempty)
  X = e.reals('x', (n, C))
  x = e.T(X)
  lo, hi = (-1, (1 << d) + 1) if bound else (0, 1 << d)
  cell, frac, b, P = query(e, nq, d, batch, lo, hi)
  if module:
    # the module takes coordinates in [-1, 1]
    s = Fraction(2, 1 << d)
    P = [[e.sub(e.mul(v, s), 1) for v in r[:3]] + r[3:] for r in P]
    m = e.make(lambda: ocnn.nn.OctreeInterp('nearest', nempty, bound_check=bound))
    p = e.T(P)
    if warm: m(filled(e, n, C), twin(oc, full, nempty or d < depth, False), d, e.T([[0.0, 0.0, 0.0, 0.0]] * nq))
    out = m(x, oc, d, p)
  else:
    p = e.T(P)
    out = ocnn.nn.octree_nearest_pts(x, oc, d, p, nempty, bound)
  with e.spec():
    _, _, pick, _ = lv.sel(nempty)
    want = []
    for i in range(nq):
      want.append([e.merge([(pick(c, X[:, j]), e.all_(
          [e.eq(b[i], c[0])] + [e.eq(cell[a][i], c[a + 1]) for a in range(3)]))
          for c in lv.cells()]) for j in range(C)])
    e.equal(out, want, 'nearest interpolation')
    e.equal(x, X, 'data unchanged')
    e.equal(p, P, 'points unchanged')


@intact
def linear(e, depth, full, batch, nempty, C=1, nq=1, maxsplit=None, maxlast=None, at=None,
           bound=True, module=False, lo=None, hi=None, warm=False):
  """trilinear weights of the 8 cells around the point, normalised over the cells that exist"""
  d = depth if at is None else at
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False,
                       last=nempty or d < depth)
  lv = geo.levels[d]
  n = rows_of(oc, lv, nempty)
  X = e.reals('x', (n, C))
  x = e.T(X)
  # shifted by half a cell: the point lies between the centres of `cell` and `cell`+1
  lo = (-1 if bound else 0) if lo is None else lo
  hi = ((1 << d) if bound else (1 << d) - 1) if hi is None else hi
  cell, frac, b, P = query(e, nq, d, batch, lo, hi)
  P = [[e.add(v, Fraction(1, 2)) for v in r[:3]] + r[3:] for r in P]
  if module:
    s = Fraction(2, 1 << d)
    P = [[e.sub(e.mul(v, s), 1) for v in r[:3]] + r[3:] for r in P]
    m = e.make(lambda: ocnn.nn.OctreeInterp('linear', nempty, bound_check=bound))
    p = e.T(P)
    if warm: m(filled(e, n, C), twin(oc, full, nempty or d < depth, False), d, e.T([[0.0, 0.0, 0.0, 0.0]] * nq))
    out = m(x, oc, d, p)
  else:
    p = e.T(P)
    out = ocnn.nn.octree_linear_pts(x, oc, d, p, nempty, bound)
  with e.spec():
    exists, _, pick, _ = lv.sel(nempty)
    want = []
    for i in range(nq):
      num, den = [[] for _ in range(C)], []
      for k in range(8):
        o = (k >> 2 & 1, k >> 1 & 1, k & 1)
        w = Fraction(1)
        for a in range(3):
          w = e.mul(w, frac[a][i] if o[a] else e.sub(1, frac[a][i]))
        for c in lv.cells():
          at_ = e.all_([e.eq(b[i], c[0])] + [e.eq(e.add(cell[a][i], o[a]), c[a + 1])
                                             for a in range(3)])
          if at_ is False: continue
          den.append((w, e.and_(at_, exists(c))))
          for j in range(C):
            num[j].append((e.mul(w, pick(c, X[:, j])), at_))
      den = e.add(e.total(den), Fraction(1e-12))
      want.append([e.div(e.total(num[j]), den) for j in range(C)])
    e.equal(out, want, 'linear interpolation')
    e.equal(x, X, 'data unchanged')
    e.equal(p, P, 'points unchanged')


@intact
def upsample(e, depth, full, batch, nempty, method='nearest', src=None, C=1, maxsplit=None,
             maxlast=None, fn=False, warm=False):
  """every node of the target level gets the value of its ancestor"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False)
  s = depth - 1 if src is None else src
  lv, up = geo.levels[depth], geo.levels[s]
  n = rows_of(oc, up, nempty)
  X = e.reals('x', (n, C))
  x = e.T(X)
  if fn:
    out = ocnn.nn.octree_interp.octree_nearest_upsample(x, oc, s, nempty)
  else:
    m = e.make(lambda: ocnn.nn.OctreeUpsample(method, nempty))
    if warm: m(filled(e, n, C), twin(oc, full, True, False), s, None if src is None else depth)
    out = m(x, oc, s, None if src is None else depth)
  with e.spec():
    _, _, pick, _ = up.sel(nempty)
    def want(c):
      p = (c[0],) + tuple(v >> (depth - s) for v in c[1:])
      return [pick(p, X[:, j]) for j in range(C)]
    check_rows(e, lv, nempty, out, want, 'nearest upsampling')
    e.equal(x, X, 'input unchanged')


@intact
def upsample_linear(e, depth, full, batch, nempty, C=1, maxsplit=None, maxlast=None, src=None):
  """linear upsampling of inner nodes: weights 27/9/3/1 : 64 normalised over existing cells"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False)
  s = depth - 1 if src is None else src
  lv, up = geo.levels[depth], geo.levels[s]
  n = rows_of(oc, up, nempty)
  X = e.reals('x', (n, C))
  x = e.T(X)
  m = e.make(lambda: ocnn.nn.OctreeUpsample('linear', nempty))
  out = m(x, oc, s, depth)
  same = m(x, oc, s, s)
  with e.spec():
    exists, _, pick, opts = up.sel(nempty)
    r = depth - s
    def want(c):
      # position of the centre of c in units of the source cells, minus one half
      pos = [Fraction(2 * v + 1, 2 << r) - Fraction(1, 2) for v in c[1:]]
      base = [p.numerator // p.denominator for p in pos]
      num, den = [[] for _ in range(C)], []
      for k in range(8):
        o = (k >> 2 & 1, k >> 1 & 1, k & 1)
        q = (c[0],) + tuple(b + i for b, i in zip(base, o))
        if not inside(q, s): continue
        w = Fraction(1)
        for a in range(3):
          f = pos[a] - base[a]
          w *= f if o[a] else 1 - f
        den.append((w, exists(q)))
        for j in range(C):
          num[j].append((e.mul(pick(q, X[:, j]), w), True))
      return [e.over(e.total(num[j]), den, lambda k: 1 / (k + Fraction(1e-12)))
              for j in range(C)]
    check_rows(e, lv, nempty, out, want, 'linear upsampling')
    e.equal(same, X, 'upsampling to the same depth')
    e.equal(x, X, 'input unchanged')


# ------------------------------------------------------------ voxels / align
@intact
def voxel(e, depth, full, batch, nempty, C=2, maxsplit=None, maxlast=None, at=None, warm=False):
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False)
  d = depth if at is None else at
  lv = geo.levels[d]
  n = rows_of(oc, lv, nempty)
  X = e.reals('x', (n, C))
  x = e.T(X)
  out = ocnn.nn.octree2voxel(x, oc, d, nempty)
  m = e.make(lambda: ocnn.nn.Octree2Voxel(nempty))
  if warm: m(filled(e, n, C), twin(oc, full, True, False), d)
  out2 = m(x, oc, d)
  with e.spec():
    _, _, pick, _ = lv.sel(nempty)
    N = 1 << d
    want = [[[[[pick((b, i, j, k), X[:, c]) for c in range(C)] for k in range(N)]
              for j in range(N)] for i in range(N)] for b in range(batch)]
    e.equal(out, want, 'octree2voxel')
    e.equal(out2, want, 'octree2voxel (module)')
    e.equal(x, X, 'input unchanged')


@intact
def align(e, depth, full, batch, nempty, C=1, maxsplit=None, maxlast=None, double=False, batch2=None):
  """features move to another octree by position; nodes it does not share get zero"""
  oa, ga = sym_octree(e, depth, full, batch, name='a', maxsplit=maxsplit, maxlast=maxlast,
                      neigh=False, last=nempty)
  ob, gb = sym_octree(e, depth, full, batch2 or batch, name='b', maxsplit=maxsplit, maxlast=maxlast,
                      neigh=False, last=nempty)
  la, lb = ga.levels[depth], gb.levels[depth]
  n = rows_of(oa, la, nempty)
  X = e.reals('x', (n, C))
  x = e.T(X, torch.float64 if double else torch.float32)
  out = ocnn.nn.octree_align(x, oa, ob, depth, nempty)
  with e.spec():
    _, _, pick, _ = la.sel(nempty)
    check_rows(e, lb, nempty, out, lambda c: [pick(c, X[:, j]) for j in range(C)],
               'octree_align')
    e.equal(x, X, 'input unchanged')
    e.equal(out.dtype == x.dtype, True, 'dtype is kept')


# ------------------------------------------------------------ normalisation
@intact
def group_norm(e, depth, full, batch, nempty, channels, groups, maxsplit=None, maxlast=None,
               instance=False, at=None, warm=False):
  """(x - mean) / sqrt(var + eps) * weight + bias, statistics per sample and channel group"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False,
                       last=nempty or at is not None)
  d = depth if at is None else at
  lv = geo.levels[d]
  n = rows_of(oc, lv, nempty)
  X = e.reals('x', (n, channels))
  W, Bi = e.reals('w', (1, channels)), e.reals('b', (1, channels))
  if instance:
    m = e.make(lambda: ocnn.nn.OctreeInstanceNorm(channels, nempty))
    groups = channels
  else:
    m = e.make(lambda: ocnn.nn.OctreeGroupNorm(channels, groups, nempty))
  with e.spec():
    e.equal([list(m.weights.shape), list(m.bias.shape)], [[1, channels], [1, channels]], 'shapes')
  set_param(m, 'weights', e.T(W))
  set_param(m, 'bias', e.T(Bi))
  x = e.T(X)
  if warm: m(filled(e, n, channels), twin(oc, full, nempty or at is not None, False), d)
  out = m(x, oc, d)
  eps = Fraction(1e-5)
  if True:
    _, _, _, opts = lv.sel(nempty)
    own = {b: [False] * n for b in range(batch)}
    for c in lv.cells():
      for k, g in opts(c).items():
        if k < n: own[c[0]][k] = e.or_(own[c[0]][k], g)
    cg = channels // groups
    res = [[[] for _ in range(channels)] for _ in range(n)]
    for b in range(batch):
      ones = [(cg, g) for g in own[b]]
      inv = lambda k: 1 / (k + eps)
      for g_ in range(groups):
        cs = range(g_ * cg, (g_ + 1) * cg)
        mean = e.over(e.total([(X[i, j], own[b][i]) for i in range(n) for j in cs]), ones, inv)
        D = {(i, j): e.sub(X[i, j], mean) for i in range(n) for j in cs}
        var = e.over(e.total([(e.mul(D[i, j], D[i, j]), own[b][i]) for i in range(n)
                              for j in cs]), ones, inv)
        istd = e.div(1, e.sqrt(e.add(var, eps)))
        for i in range(n):
          for j in cs:
            if own[b][i] is False: continue
            res[i][j].append((e.add(e.mul(e.mul(D[i, j], istd), W[0, j]), Bi[0, j]), own[b][i]))
    e.equal(out, [[e.merge(res[i][j]) for j in range(channels)] for i in range(n)],
            'group norm')
    e.equal(x, X, 'input unchanged')


@intact
def drop_path(e, depth, full, batch, nempty, prob, scale=True, training=True, C=1, given=False,
              maxsplit=None, maxlast=None, warm=False):
  """all nodes of a sample are kept (scaled) or dropped together"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False,
                       last=nempty)
  lv = geo.levels[depth]
  n = rows_of(oc, lv, nempty)
  X = e.reals('x', (n, C))
  m = e.make(lambda: ocnn.nn.OctreeDropPath(prob, nempty, scale))
  m.train(training)
  x = e.T(X)
  kw = {'batch_id': oc.batch_id(depth, nempty)} if given else {}
  if warm: m(filled(e, n, C), twin(oc, full, nempty, False), depth)
  out = m(x, oc, depth, **kw)
  with e.spec():
    e.equal(x, X, 'input unchanged')
    O = e.V(out)
    e.equal(list(O.shape), [n, C], 'shape')
    if not training or prob <= 0:
      e.equal(out, X, 'identity')
      return
    keep = 1 - prob
    k = Fraction(1) / Fraction(keep) if keep > 0 and scale else Fraction(1)
    _, _, _, opts = lv.sel(nempty)
    own = {b: [False] * n for b in range(batch)}
    for c in lv.cells():
      for r, g in opts(c).items():
        if r < n: own[c[0]][r] = e.or_(own[c[0]][r], g)
    draws = e.draws()
    e.equal(len(draws), 2 * batch if warm else batch, 'one draw per sample')
    draws = draws[-batch:]
    for b in range(batch):
      kept = e.le(Fraction(1), e.add(draws[b], Fraction(keep)))
      for i in range(n):
        for j in range(C):
          w = e.mul(X[i, j], e.ite(kept, k, Fraction(0)))
          e.true(e.implies(own[b][i], e.eq(O[i, j], w)), 'kept or dropped per sample')
