"""Shared harness code: symbolic octrees and an independent geometric reference.

The reference knows nothing about keys, children or neighbour tables: it is a set
of cells (batch, x, y, z) per level with guards, ordered by the interleaved-bit
order of the coordinates.
"""
import functools
import torch
import ocnn
from ocnn.octree import Octree, Points, init_octree, merge_octrees

OFFS = [(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]
KOFFS = {
    '333': OFFS,
    '222': [(i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)],
    '311': [(i, 0, 0) for i in (-1, 0, 1)],
    '131': [(0, i, 0) for i in (-1, 0, 1)],
    '113': [(0, 0, i) for i in (-1, 0, 1)],
    '331': [(i, j, 0) for i in (-1, 0, 1) for j in (-1, 0, 1)],
    '313': [(i, 0, j) for i in (-1, 0, 1) for j in (-1, 0, 1)],
    '133': [(0, i, j) for i in (-1, 0, 1) for j in (-1, 0, 1)],
}


def interleave(x, y, z, depth):
  k = 0
  for i in range(depth):
    k |= (x >> i & 1) << (3 * i + 2) | (y >> i & 1) << (3 * i + 1) | (z >> i & 1) << (3 * i)
  return k


def all_cells(depth, batch=1):
  n = 1 << depth
  cs = [(x, y, z) for x in range(n) for y in range(n) for z in range(n)]
  cs.sort(key=lambda c: interleave(*c, depth))
  return [(b,) + c for b in range(batch) for c in cs]


def child_cell(c, j):
  b, x, y, z = c
  return (b, 2 * x + (j >> 2 & 1), 2 * y + (j >> 1 & 1), 2 * z + (j & 1))


def parent_cell(c):
  b, x, y, z = c
  return (b, x >> 1, y >> 1, z >> 1)


def octant(c):
  return (c[1] & 1) << 2 | (c[2] & 1) << 1 | (c[3] & 1)


class Level:
  """cells of one octree level.  opts[c] = {node index: guard}"""

  def __init__(self, e, depth, n):
    self.e, self.depth, self.n = e, depth, n
    self.opts = {}
    self.ne = [True] * n          # per node: non-empty guard
    self.full = False
    self._nrank = None

  def exists(self, c):
    o = self.opts.get(c)
    return False if o is None else self.e.any_(o.values())

  def cells(self):
    return list(self.opts)

  def node_cells(self):
    """per node index: {cell: guard}"""
    out = [dict() for _ in range(self.n)]
    for c, o in self.opts.items():
      for i, g in o.items():
        out[i][c] = g
    return out

  def idx(self, c, default=-1):
    """node index of the cell or `default`"""
    o = self.opts.get(c)
    r = default
    if o:
      for i, g in o.items():
        r = self.e.ite(g, i, r)
    return r

  def pick(self, c, vals, default=0):
    """vals[node index of c] or default"""
    r = default
    for i, g in (self.opts.get(c) or {}).items():
      r = self.e.ite(g, vals[i], r)
    return r

  def nonempty(self, c):
    e = self.e
    return e.any_(e.and_(g, self.ne[i]) for i, g in (self.opts.get(c) or {}).items())

  def ranks(self):
    """per node: {number of non-empty nodes before it: guard}"""
    if self._nrank is None:
      e = self.e
      cnt, out = {0: True}, []
      for g in self.ne:
        out.append(cnt)
        if g is False: continue
        new = {}
        for k, h in cnt.items():
          for kk, x in ((k, e.and_(h, e.not_(g))), (k + 1, e.and_(h, g))):
            if x is not False: new[kk] = e.or_(new.get(kk, False), x)
        cnt = new
      self._nrank = out + [cnt]
    return self._nrank

  def count_ne(self):
    return self.ranks()[-1]

  def nopts(self, c):
    """{rank among the non-empty nodes: guard} for the cell"""
    e, out = self.e, {}
    for i, g in (self.opts.get(c) or {}).items():
      h = e.and_(g, self.ne[i])
      if h is False: continue
      for k, q in self.ranks()[i].items():
        x = e.and_(h, q)
        if x is not False: out[k] = e.or_(out.get(k, False), x)
    return out

  def nidx(self, c, default=-1):
    r = default
    for k, g in self.nopts(c).items():
      r = self.e.ite(g, k, r)
    return r

  def npick(self, c, vals, default=0):
    r = default
    for k, g in self.nopts(c).items():
      if k < len(vals):
        r = self.e.ite(g, vals[k], r)
    return r

  def sel(self, nempty):
    """(exists, idx, pick, options) accessors over all or the non-empty nodes"""
    if nempty:
      return self.nonempty, self.nidx, self.npick, self.nopts
    return self.exists, self.idx, self.pick, (lambda c: self.opts.get(c) or {})

  def count(self, nempty):
    if not nempty: return {self.n: True}
    return self.count_ne()


class Geo:

  def __init__(self, e, full, batch):
    self.e, self.full, self.batch = e, full, batch
    self.levels = {}
    for d in range(full + 1):
      cs = all_cells(d, batch)
      lv = Level(e, d, len(cs))
      lv.full = True
      for i, c in enumerate(cs):
        lv.opts[c] = {i: True}
      self.levels[d] = lv

  def split(self, d, bits):
    """non-empty flags (per node) of level d"""
    self.levels[d].ne = list(bits)
    self.levels[d]._nrank = None

  def grow(self, d, n):
    """level d+1 below the non-empty nodes of level d; n: number of nodes"""
    lv, nx = self.levels[d], Level(self.e, d + 1, n)
    for c in lv.cells():
      for k, g in lv.nopts(c).items():
        if 8 * k + 8 > n: continue
        for j in range(8):
          nx.opts.setdefault(child_cell(c, j), {})[8 * k + j] = g
    self.levels[d + 1] = nx
    return nx


def some_bits(e, name, n, k=None):
  """n flags of which between 1 and k are set"""
  if k is not None and k < n and k * max(1, (n - 1).bit_length()) < n:
    pos = e.ints(name, k, 0, n)
    return [e.any_(e.eq(p, i) for p in pos) for i in range(n)]
  bits = e.bits(name, n)
  e.assume(e.any_(bits))
  if k is not None and k < n:
    e.assume(e.le(e.count(bits), k))
  return bits


OVERRIDE = None       # set by c_big: fixed split patterns instead of symbolic ones


def sym_octree(e, depth, full=1, batch=1, name='s', maxsplit=None, minsplit=1, last=True,
               neigh=True, fixed=None, spec=True, maxlast=None):
  """octree grown with symbolic split flags at every level from `full` on.

  fixed: {depth: function(node index) -> True/False/None}; None leaves the flag symbolic.
  maxsplit: bound on the number of split nodes per level (below the last level)."""
  if OVERRIDE is not None and fixed is None: fixed = OVERRIDE(name, depth)
  oc = init_octree(depth, full, batch)
  flags = {}
  n = len(all_cells(full, batch))
  for d in range(full, depth + (1 if last else 0)):
    if d > full:
      n = int(oc.nnum[d])
    f = (fixed or {}).get(d)
    pat = [f(i) if f else None for i in range(n)]
    nfree = sum(1 for p in pat if p is None)
    mx = maxsplit if d < depth else maxlast
    if nfree == n:
      bits = some_bits(e, '%s%d' % (name, d), n, mx)
    else:
      it = iter(e.bits('%s%d' % (name, d), nfree))
      bits = [next(it) if p is None else p for p in pat]
      if nfree:
        e.assume(e.any_(bits))
        if mx is not None: e.assume(e.le(e.count(bits), mx))
    if minsplit > 1 and d < depth:
      e.assume(e.le(minsplit, e.count(bits)))
    flags[d] = bits
    oc.octree_split(e.T(bits, torch.int32), d)
    if d < depth:
      oc.octree_grow(d + 1, update_neigh=neigh)
  with e.spec():
    geo = Geo(e, full, batch)
    for d in range(full, depth + 1):
      if d in flags:
        geo.split(d, flags[d])
      if d < depth:
        geo.grow(d, int(oc.nnum[d + 1]))
  keep(e, oc)
  return oc, geo


def shift(c, o):
  return (c[0], c[1] + o[0], c[2] + o[1], c[3] + o[2])


def inside(c, d):
  return all(0 <= v < (1 << d) for v in c[1:])


def check_rows(e, lv, nempty, actual, expect, msg):
  """`actual` has one row per node (or per non-empty node) of the level, and the row of
  cell c equals expect(c) (a list of scalars)."""
  _, _, _, opts = lv.sel(nempty)
  A = e.V(actual)
  N = A.shape[0]
  e.true(e.any_(g for k, g in lv.count(nempty).items() if k == N), msg + ': number of rows')
  if N == 0:
    return
  A = A.reshape(N, -1)
  rows = [[] for _ in range(N)]
  for c in lv.cells():
    o = {k: g for k, g in opts(c).items() if k < N}
    if not o: continue
    want = expect(c)
    if len(want) != A.shape[1]:
      e.fail('%s: %d columns, expected %d' % (msg, A.shape[1], len(want)))
      return
    for k, g in o.items():
      rows[k].append((want, g))
  e.equal(A, [[e.merge([(w[j], g) for w, g in rows[k]]) for j in range(A.shape[1])]
              for k in range(N)], msg)


def feats(e, name, n, c):
  return e.reals(name, (n, c))


KEPT = None


def keep(e, oc):
  """the structure of the octree must be the same when the harness ends"""
  if KEPT is None: return
  old = {(f, d): snapshot(e, t) for f in ('keys', 'children', 'neighs') for d, t in enumerate(getattr(oc, f))
         if isinstance(t, torch.Tensor)}
  KEPT.append((oc, old, snapshot(e, oc.nnum), snapshot(e, oc.nnum_nempty)))


def intact(h):
  """a harness whose operation leaves its octrees as they are"""
  @functools.wraps(h)
  def f(e, *a, **k):
    global KEPT
    KEPT = []
    try:
      h(e, *a, **k)
      kept = KEPT
    finally:
      KEPT = None
    with e.spec():
      for oc, old, n, m in kept:
        e.equal(oc.nnum, n, 'octree unchanged: nnum')
        e.equal(oc.nnum_nempty, m, 'octree unchanged: nnum_nempty')
        for (q, d), t in old.items():
          e.equal(getattr(oc, q)[d], t, 'octree unchanged: %s %d' % (q, d))
  return f


def snapshot(e, t):
  """values of a tensor now (for input-mutation checks)"""
  return e.V(t).copy()


def twin(oc, full, last=True, neigh=True):
  """a concrete octree with the same number of nodes at every level, usually of another shape:
  used to show that a layer keeps nothing of the octrees it has seen before"""
  o = init_octree(oc.depth, full, oc.batch_size)
  for d in range(full, oc.depth + (1 if last else 0)):
    n, k = int(oc.nnum[d]), int(oc.nnum_nempty[d])
    o.octree_split(torch.tensor([1] * k + [0] * (n - k), dtype=torch.int32), d)
    if d < oc.depth: o.octree_grow(d + 1, update_neigh=neigh)
  return o


def filled(e, n, c):
  return e.T([[float(1 + (i * c + j) % 3) for j in range(c)] for i in range(n)])
