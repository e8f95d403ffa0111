"""Structure, neighbourhoods and search of the octree."""
import torch
import ocnn
from ocnn.octree import Octree, Points, init_octree, merge_octrees, xyz2key
from .lib import *


def cell_key(c, d):
  return c[0] << 48 | interleave(c[1], c[2], c[3], d)


# ---------------------------------------------------------------- split / grow
def structure(e, depth, full, batch, maxsplit=None, maxlast=None, neigh=False, accessors=True):
  """octree_split / octree_grow create exactly the children of the non-empty nodes"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=neigh)
  with e.spec():
    for d in range(depth + 1):
      lv = geo.levels[d]
      m = ' depth %d' % d
      e.equal(int(oc.nnum[d]), lv.n, 'nnum' + m)
      e.equal(oc.nnum_nempty[d], e.count(lv.ne), 'nnum_nempty' + m)
      check_rows(e, lv, False, oc.keys[d], lambda c: [cell_key(c, d)], 'keys' + m)
      check_rows(e, lv, False, oc.children[d], lambda c: [lv.nidx(c)], 'children' + m)
      e.equal(oc.nempty_mask(d), lv.ne, 'nempty_mask' + m)
  if not accessors: return
  for d in range(depth + 1):
    lv = geo.levels[d]
    for ne in (False, True):
      xyzb = torch.stack(list(oc.xyzb(d, ne)), dim=1)
      key, bid = oc.key(d, ne), oc.batch_id(d, ne)
      with e.spec():
        m = ' depth %d nempty=%s' % (d, ne)
        check_rows(e, lv, ne, xyzb, lambda c: [c[1], c[2], c[3], c[0]], 'xyzb' + m)
        check_rows(e, lv, ne, bid, lambda c: [c[0]], 'batch_id' + m)
        check_rows(e, lv, ne, key, lambda c: [cell_key(c, d)], 'key' + m)


def chain(e, depth, full, batch, b, deep=4):
  """one symbolic split node per level down to the largest depth: the keys keep every bit of the
  coordinates and the batch index"""
  oc = init_octree(depth, full, batch)
  base = 8 ** full
  node, prefix = b * base, 0
  pos = e.bvs('p', depth, 0, 8)
  for d in range(full, depth + 1):
    n = int(oc.nnum[d])
    if d < depth - deep and d > full + 1:
      j = (d * 5 + 3) % 8                    # fixed position, others symbolic
      flags = [i == j for i in range(n)]
      here = j
    elif d == full:
      j = (base * 5) // 7
      flags = [i == node + j for i in range(n)]
      here = j
    else:
      flags = [e.eq(pos[d - 1], i) for i in range(n)]
      here = pos[d - 1]
    with e.spec():
      K = e.V(oc.keys[d])
      for i in range(n):
        if d <= full:
          e.equal(K[i], (i // base) << 48 | i % base, 'keys of the full level')
        else:
          e.equal(K[i], (b << 48) | (prefix << 3) | i, 'keys at depth %d' % d)
    e.equal(oc.batch_id(d), [i // base for i in range(n)] if d <= full else [b] * n, 'batch index')
    prefix = here if d == full else (prefix << 3) | here
    if d == depth: break
    oc.octree_split(e.T(flags, torch.int32), d)
    oc.octree_grow(d + 1, update_neigh=False)


def split_none(e, depth, batch):
  """a split that selects no node keeps the octree alive: exactly node 0 is split"""
  oc = init_octree(depth, 1, batch)
  n = 8 * batch
  bits = e.bits('s', n)
  with_any = e.any_(bits)
  oc.octree_split(e.T(bits, torch.int32), 1)
  oc.octree_grow(2, update_neigh=False)
  N = int(oc.nnum[2])
  with e.spec():
    cnt = e.count(bits)
    e.equal(e.ite(with_any, e.mul(8, cnt), 8), N, 'nodes of the next level')
    rank, want = 0, []
    for i, b in enumerate(bits):
      f = e.or_(b, e.not_(with_any)) if i == 0 else b
      want.append(e.ite(f, rank, -1))
      rank = e.add(rank, e.ite(f, 1, 0))
    e.equal(oc.children[1], want, 'children')
    e.equal(int(oc.nnum_nempty[1]) * 8, N, 'nnum_nempty')


def split_values(e, dtype):
  """every non-zero entry of 0/1 labels of any dtype counts as split"""
  oc = init_octree(2, 1, 1)
  bits = e.bits('s', 8)
  e.assume(e.any_(bits))
  oc.octree_split(e.T(bits, getattr(torch, dtype)), 1)
  with e.spec():
    rank, want = 0, []
    for b in bits:
      want.append(e.ite(b, rank, -1))
      rank = e.add(rank, e.ite(b, 1, 0))
    e.equal(oc.children[1], want, 'children')
    e.equal(oc.nnum_nempty[1], rank, 'nnum_nempty')


# ---------------------------------------------------------------- neighbours
def neigh_table(e, depth, full, batch, maxsplit=None, rebuild=False):
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, last=False)
  if rebuild:
    old0 = oc.neighs[0]
    oc.neighs = [old0] + [None] * depth
    oc.construct_all_neigh()
  with e.spec():
    for d in range(1, depth + 1):
      lv = geo.levels[d]
      def want(c):
        return [lv.idx(shift(c, o)) if inside(shift(c, o), d) else -1 for o in OFFS]
      e.equal(list(oc.neighs[d].shape), [lv.n, 27], 'shape of the neighbour table')
      check_rows(e, lv, False, oc.neighs[d], want, 'neighbours at depth %d' % d)


def neigh_again(e, depth, full, batch, maxsplit):
  """an octree that is split again and regrown gets the neighbours of its new nodes, also when the
  numbers of nodes are the same as before"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, last=False)
  o2 = twin(oc, full, last=False)
  how = e.fork('how', ['grow', 'all'])
  for d in range(full, depth):
    o2.octree_split(e.T(geo.levels[d].ne, torch.int32), d)
    o2.octree_grow(d + 1, update_neigh=how == 'grow')
  if how == 'all': o2.construct_all_neigh()
  with e.spec():
    for d in range(1, depth + 1):
      lv = geo.levels[d]
      want = lambda c: [lv.idx(shift(c, o)) if inside(shift(c, o), d) else -1 for o in OFFS]
      check_rows(e, lv, False, o2.neighs[d], want, 'neighbours at depth %d' % d)
      check_rows(e, lv, False, o2.keys[d], lambda c: [cell_key(c, d)], 'keys %d' % d)
      if d < depth: check_rows(e, lv, False, o2.children[d], lambda c: [lv.nidx(c)], 'children %d' % d)


def neigh_built(e, n, depth, full):
  """neighbours of an octree built from points"""
  from .c_build import Cloud
  cl = Cloud(e, n, depth)
  oc = Octree(depth, full)
  oc.build_octree(cl.make())
  oc.construct_all_neigh()
  with e.spec():
    for d in range(1, depth + 1):
      key, N = e.V(oc.keys[d]), e.V(oc.neighs[d])
      k = key.shape[0]
      e.equal(list(N.shape), [k, 27], 'shape of the neighbour table')
      low = (1 << 3 * d) - 1
      xyz = [cell_of(e, key[i], d) for i in range(k)]
      for i in range(k):
        for j, o in enumerate(OFFS):
          row = N[i, j]
          for m in range(k):
            adj = e.all_(e.eq(xyz[m][a], e.add(xyz[i][a], o[a])) for a in range(3))
            e.true(e.iff(e.eq(row, m), adj), 'neighbour %d of %d at depth %d' % (j, i, d))
          e.true(e.and_(e.le(-1, row), e.lt(row, k)), 'range')


def cell_of(e, key, d):
  """coordinates in a key (concrete or symbolic)"""
  out = []
  for s in (2, 1, 0):
    v = 0
    for i in range(d): v = v | (((key >> (3 * i + s)) & 1) << i)
    out.append(v)
  return out


def neigh_merged(e, depth, full, splits):
  """merged octrees: neighbours never cross samples"""
  from .c_build import Cloud
  parts = []
  for i, m in enumerate(splits):
    oc, geo = sym_octree(e, depth, full, 1, name='s%d_' % i, maxsplit=m, last=False, neigh=False)
    parts.append((oc, geo))
  mo = merge_octrees([p[0] for p in parts])
  mo.construct_all_neigh()
  with e.spec():
    for d in range(1, depth + 1):
      off, want = 0, []
      for oc, geo in parts:
        lv = geo.levels[d]
        nc = lv.node_cells()
        for i in range(lv.n):
          row = []
          for o in OFFS:
            row.append(e.merge([(e.add(lv.idx(shift(c, o), -1 - off), off)
                                 if inside(shift(c, o), d) else -1, g)
                                for c, g in nc[i].items()]))
          want.append(row)
        off += lv.n
      e.equal(mo.neighs[d], want, 'neighbours of the merged octree, depth %d' % d)


def group_rows(e, lv, up, actual, want, msg):
  """rows are sibling groups: the group of parent cell p has the row want(p)"""
  A = e.V(actual)
  N = A.shape[0]
  e.equal(N * 8, lv.n, msg + ': number of rows')
  A = A.reshape(N, -1)
  rows = [[] for _ in range(N)]
  for p in up.cells():
    for k, g in up.nopts(p).items():
      if k < N: rows[k].append((want(p), g))
  e.equal(A, [[e.merge([(w[j], g) for w, g in rows[k]]) for j in range(A.shape[1])]
              for k in range(N)], msg)


@intact
def neigh_kernels(e, depth, full, batch, kernels, stride, nempty, maxsplit=None, maxlast=None):
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, last=nempty, maxlast=maxlast)
  before = snapshot(e, oc.neighs[depth])
  lv = geo.levels[depth]
  outs = [oc.get_neigh(depth, k, stride, nempty) for k in kernels]
  again = [oc.get_neigh(depth, k, stride, nempty) for k in kernels]
  with e.spec():
    _, idx, _, _ = lv.sel(nempty)
    for k, t, t2 in zip(kernels, outs, again):
      msg = 'neighbours %s stride %d nempty %s' % (k, stride, nempty)
      def want(c):
        return [idx(shift(c, o)) if inside(shift(c, o), depth) else -1 for o in KOFFS[k]]
      if stride == 1:
        check_rows(e, lv, nempty, t, want, msg)
      else:
        group_rows(e, lv, geo.levels[depth - 1], t, lambda p: want(child_cell(p, 0)), msg)
      e.equal(t2, t, msg + ': second call')
    e.equal(oc.neighs[depth], before, 'neighbour table unchanged')


def neigh_errors(e):
  oc = init_octree(2, 2, 1)
  for args in (dict(kernel='555'), dict(stride=3)):
    try:
      oc.get_neigh(2, **args)
      ok = False
    except ValueError:
      ok = True
    e.true(ok, 'unsupported %s is rejected' % args)


# ---------------------------------------------------------------- search
@intact
def search(e, depth, full, batch, nempty, nq=1, maxsplit=None, maxlast=None, at=None, by='xyzb'):
  at = depth if at is None else at
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, maxlast=maxlast, neigh=False)
  lv = geo.levels[at]
  q = [e.bvs('q' + a, nq, 0, 1 << at) for a in 'xyz'] + [e.bvs('qb', nq, 0, batch + 1)]
  Q = e.T([[q[a][i] for a in range(4)] for i in range(nq)], torch.int64)
  if by == 'xyzb':
    r = oc.search_xyzb(Q, at, nempty)
  else:
    r = oc.search_key(xyz2key(Q[:, 0], Q[:, 1], Q[:, 2], Q[:, 3], at), at, nempty)
  with e.spec():
    _, idx, _, _ = lv.sel(nempty)
    want = []
    for i in range(nq):
      opts = []
      for c in lv.cells():
        here = e.all_(e.eq(q[a][i], c[(a + 1) % 4]) for a in range(4))
        opts.append((idx(c), here))
      want.append(e.select(opts + [(-1, True)]))
    e.equal(r, want, 'search result')


# ---------------------------------------------------------------- col
def col_rows(lv, nempty, kernel, X, depth, C, e):
  _, _, pick, _ = lv.sel(nempty)
  def want(c):
    out = []
    for o in KOFFS[kernel]:
      s = shift(c, o)
      for ch in range(C):
        out.append(pick(s, X[:, ch]) if inside(s, depth) else 0)
    return out
  return want


@intact
def octree2col(e, depth, full, batch, kernel, stride, nempty, C=1, maxsplit=None, maxlast=None):
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, last=nempty, maxlast=maxlast)
  lv = geo.levels[depth]
  n = int(oc.nnum_nempty[depth]) if nempty else lv.n
  X = e.reals('x', (n, C))
  x = e.T(X)
  out = ocnn.nn.octree2col(x, oc, depth, kernel, stride, nempty)
  with e.spec():
    want = col_rows(lv, nempty, kernel, X, depth, C, e)
    if stride == 1:
      check_rows(e, lv, nempty, out, want, 'octree2col')
    else:
      group_rows(e, lv, geo.levels[depth - 1], out, lambda p: want(child_cell(p, 0)),
                 'octree2col')
    e.equal(x, X, 'input unchanged')


@intact
def col2octree(e, depth, full, batch, kernel, stride, nempty, C=1, maxsplit=None, maxlast=None):
  """col2octree(y)[c] = sum of y[r,k] over the pairs whose k-th neighbour is c"""
  oc, geo = sym_octree(e, depth, full, batch, maxsplit=maxsplit, last=nempty, maxlast=maxlast)
  lv, up = geo.levels[depth], geo.levels[depth - 1]
  K = KOFFS[kernel]
  n = int(oc.nnum_nempty[depth]) if nempty else lv.n
  rows = n if stride == 1 else lv.n // 8
  Y = e.reals('y', (rows, len(K), C))
  y = e.T(Y)
  out = ocnn.nn.col2octree(y, oc, depth, kernel, stride, nempty)
  with e.spec():
    _, _, pick, opts = lv.sel(nempty)
    def want(c):
      res = []
      for ch in range(C):
        acc = []
        for k, o in enumerate(K):
          s = shift(c, (-o[0], -o[1], -o[2]))
          if not inside(s, depth): continue
          if stride == 1:
            acc += [(Y[i, k, ch], g) for i, g in opts(s).items() if i < rows]
          elif octant(s) == 0:
            acc += [(Y[i, k, ch], g) for i, g in up.nopts(parent_cell(s)).items() if i < rows]
        res.append(e.total(acc))
      return res
    check_rows(e, lv, nempty, out, want, 'col2octree')
    e.equal(y, Y, 'input unchanged')
