"""SymTensor: a torch wrapper subclass whose payload is a numpy object array of
symbolic scalars, and the dispatch handler that executes aten operators on it.

The real Python code of the library runs unmodified under real torch; only the
kernels at the dispatcher level are replaced.  dtype / shape / stride inference
is done by running the same operator on meta tensors.
"""
import itertools
import math
from fractions import Fraction
import numpy as np
import torch
import z3
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten
from . import ctx as cx
from . import guard as gd
from . import value as vl
from .ctx import Unsupported
from .guard import B, band, bor, bnot, bite, bany, ball, bxor
from .value import (F, U, lbound, with_lb, Acc, INF, NINF, NAN, bool2int, cnum, fadd, fcmp, fdiv,
                    ffloor, fite, fmul, fneg, ftrunc, funary, int_bin, int_cmp,
                    int_ite, int_map, is_bv, is_symint, isnum, lift, mkU,
                    num_ite, options_of)

aten = torch.ops.aten

_FLOATS = {torch.float32, torch.float64, torch.float16, torch.bfloat16}
_RANGE = {torch.int64: 64, torch.int32: 32, torch.int16: 16, torch.int8: 8}


def kind_of(dt):
  if dt == torch.bool: return 'b'
  if dt in _FLOATS: return 'f'
  if dt in _RANGE or dt == torch.uint8: return 'i'
  raise Unsupported('dtype %s' % dt)


class SymTensor(torch.Tensor):
  p: np.ndarray

  @staticmethod
  def __new__(cls, payload, dtype, device='cpu'):
    st = tuple(s // 8 for s in payload.strides)
    r = torch.Tensor._make_wrapper_subclass(
        cls, payload.shape, strides=st, dtype=dtype, device=device,
        requires_grad=False)
    r.p = payload
    return r

  def __init__(self, *a, **k):
    pass

  def __repr__(self, **k):
    return 'SymTensor(%s, %s)' % (tuple(self.shape), self.dtype)

  def __deepcopy__(self, memo):
    r = SymTensor(self.p.copy(), self.dtype, self.device)
    memo[id(self)] = r
    return r

  @classmethod
  def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
    return dispatch(func, args, kwargs or {})


class SymMode(TorchDispatchMode):

  def __torch_dispatch__(self, func, types, args=(), kwargs=None):
    return dispatch(func, args, kwargs or {})


# ---------------------------------------------------------------- payloads ---
def obj(shape, fill=None):
  a = np.empty(shape, dtype=object)
  if fill is not None:
    a.fill(fill)
  return a


def from_flat(lst, shape):
  a = np.empty(len(lst), dtype=object)
  for i, v in enumerate(lst):
    a[i] = v
  return a.reshape(shape)


_plain_cache = {}


def payload(t):
  if isinstance(t, SymTensor):
    return t.p
  key = id(t)
  e = _plain_cache.get(key)
  if e is not None and e[0] is t and e[1] == t._version:
    return e[2]
  k = kind_of(t.dtype)
  with torch._C._DisableTorchDispatch():
    lst = t.detach().reshape(-1).tolist()
  if k == 'f':
    lst = [cnum(x) for x in lst]
  p = from_flat(lst, tuple(t.shape))
  if len(_plain_cache) > 512:
    _plain_cache.clear()
  _plain_cache[key] = (t, t._version, p)
  return p


def is_concrete_scalar(x):
  return not isinstance(x, (B, U, F)) and not is_bv(x)


def is_concrete(p):
  for x in p.flat:
    if isinstance(x, (B, U, F)) or is_bv(x):
      return False
  return True


def sym(payload_, dtype, device='cpu'):
  return SymTensor(payload_, dtype, device)


def wrap_int(v, dt):
  if dt == torch.int64:
    if isinstance(v, int):
      return v if -(1 << 63) <= v < (1 << 63) else ((v + (1 << 63)) & ((1 << 64) - 1)) - (1 << 63)
    if isinstance(v, U):
      if all(-(1 << 63) <= k < (1 << 63) for k in v.d): return v
      return int_map(lambda k: wrap_int(k, dt), v)
    return v
  if dt == torch.uint8:
    if is_bv(v): return vl.norm_bv(v & 255)
    return int_map(lambda k: k & 255, v)
  n = _RANGE[dt]
  if is_bv(v):
    return vl.norm_bv(z3.SignExt(64 - n, z3.Extract(n - 1, 0, v)))
  h = 1 << (n - 1)
  if isinstance(v, int):
    return v if -h <= v < h else ((v + h) & ((1 << n) - 1)) - h
  if all(-h <= k < h for k in v.d): return v
  return int_map(lambda k: wrap_int(k, dt), v)


def cast(v, sk, dk, dt):
  """convert scalar v of kind sk to kind dk (dtype dt)"""
  if sk == dk:
    if dk == 'i': return wrap_int(v, dt)
    return v
  if dk == 'f':
    if sk == 'b':
      return lift(v) if isinstance(v, B) else int(v)
    if isinstance(v, U) or is_bv(v): return lift(v)
    return v
  if dk == 'i':
    if sk == 'b': return bool2int(v)
    if isinstance(v, float): return -(1 << 63)
    return wrap_int(ftrunc(v), dt)
  # to bool
  if sk == 'i':
    return bnot(int_cmp('eq', v, 0))
  if isinstance(v, float): return True
  return bnot(fcmp('eq', v, 0))


def cast_p(p, sdt, ddt):
  sk, dk = kind_of(sdt), kind_of(ddt)
  if sk == dk and (dk != 'i' or sdt == ddt or ddt == torch.int64):
    if dk == 'f' and ddt in (torch.float16, torch.bfloat16) and sdt != ddt and \
        cx.ctx() is not None and cx.ctx().flags.get('round_half'):
      fmt = 'f16' if ddt == torch.float16 else 'bf16'
      return vmap(lambda v: funary('rnd_' + fmt, v), p)
    return p
  return vmap(lambda v: cast(v, sk, dk, ddt), p)


def vmap(f, *ps):
  if len(ps) == 1:
    p = ps[0]
    out = np.empty(p.shape, dtype=object)
    of = out.reshape(-1)
    memo = {}
    for i, v in enumerate(p.flat):
      of[i] = f(v)
    return out
  bs = np.broadcast_arrays(*ps)
  out = np.empty(bs[0].shape, dtype=object)
  of = out.reshape(-1)
  for i, vs in enumerate(zip(*[b.flat for b in bs])):
    of[i] = f(*vs)
  return out


def scal(x):
  """python scalar -> 0-d payload"""
  a = np.empty((), dtype=object)
  a[()] = cnum(x) if isinstance(x, float) else x
  return a


# ------------------------------------------------------------------- meta ---
def to_meta(x):
  if isinstance(x, torch.Tensor):
    if isinstance(x, SymTensor):
      return torch.empty_strided(tuple(x.shape), x.stride(), dtype=x.dtype, device='meta')
    return torch.empty_strided(tuple(x.shape), x.stride(), dtype=x.dtype, device='meta')
  return x


def meta_run(func, args, kwargs):
  margs, mkw = tree_map(to_meta, (args, kwargs))
  if 'device' in mkw and mkw['device'] is not None:
    mkw = dict(mkw, device='meta')
  return func(*margs, **mkw)


def dev_of(args, kwargs):
  d = kwargs.get('device')
  if d is not None:
    return torch.device(d)
  for a in tree_flatten((args, kwargs))[0]:
    if isinstance(a, torch.Tensor):
      return a.device
  return torch.device('cpu')


# --------------------------------------------------------------- dispatch ---
OPS = {}
_running_native = [0]


def op(*names):
  def deco(f):
    for n in names:
      OPS[n] = f
    return f
  return deco


def dispatch(func, args, kwargs):
  c = cx.ctx()
  if c is None:
    raise RuntimeError('symbolic tensor used outside a symbolic run')
  flat = tree_flatten((args, kwargs))[0]
  tens = [a for a in flat if isinstance(a, torch.Tensor)]
  name = func._schema.name.split('::')[1]
  ns = func._schema.name.split('::')[0]
  if ns == 'prim' and name == 'device':
    return args[0].device
  if tens and not any(isinstance(t, SymTensor) for t in tens):
    if name in ('lift_fresh', 'lift_fresh_copy'):
      return sym(payload(args[0]).copy(), args[0].dtype, args[0].device)
    return func(*args, **kwargs)        # all plain: run natively
  c.stats.ops += 1
  if c.deadline is not None and c.stats.ops % 16 == 0:
    import time
    if time.time() > c.deadline:
      raise cx.Deadline('deadline')
  h = OPS.get(name)
  if h is None and name.endswith('_') and not name.startswith('_') and name[:-1] in OPS \
      and func._schema.is_mutable:
    return inplace(func, name[:-1], args, kwargs)
  if 'out' in kwargs and h is not None and func._schema.is_mutable:
    return out_variant(func, h, args, kwargs)
  if h is not None:
    return h(func, args, kwargs)
  return fallback(func, name, args, kwargs)


def fallback(func, name, args, kwargs):
  # 1. decompose
  try:
    from torch._decomp import decomposition_table
    if func in decomposition_table and not func._schema.is_mutable:
      with SymMode():
        return decomposition_table[func](*args, **kwargs)
    with SymMode():
      r = func.decompose(*args, **kwargs)
    if r is not NotImplemented:
      return r
  except Unsupported:
    raise
  # 2. all concrete: run the native kernel
  flat = tree_flatten((args, kwargs))[0]
  if not func._schema.is_mutable:
    tens = [a for a in flat if isinstance(a, SymTensor)]
    if all(is_concrete(t.p) for t in tens):
      rargs, rkw = tree_map(lambda a: to_real(a) if isinstance(a, SymTensor) else a,
                            (args, kwargs))
      out = func(*rargs, **rkw)
      return tree_map(lambda t: sym(payload(t).copy(), t.dtype, t.device)
                      if isinstance(t, torch.Tensor) else t, out)
  raise Unsupported('aten op %s' % func)


def to_real(t):
  """native tensor of a concrete SymTensor"""
  k = kind_of(t.dtype)
  vals = [float(v) if k == 'f' else (bool(v) if k == 'b' else int(v)) for v in t.p.flat]
  with torch._C._DisableTorchDispatch():
    return torch.tensor(vals, dtype=t.dtype).reshape(tuple(t.shape))


def inplace(func, base, args, kwargs):
  self = args[0]
  if not isinstance(self, SymTensor):
    raise Unsupported('in-place symbolic write into a plain tensor (%s)' % func)
  m = meta_run(func, args, kwargs)      # shape / dtype errors
  # functional overload: same overload name when available
  packet = getattr(aten, base)
  ov = func._overloadname
  f2 = getattr(packet, ov, None)
  if f2 is None:
    f2 = getattr(packet, packet.overloads()[0])
  r = OPS[base](f2, args, kwargs)
  store(self, r.p, r.dtype)
  return self


def store(self, p, dt):
  if not self.p.flags.writeable:
    raise RuntimeError('unsupported operation: more than one element of the written-to '
                       'tensor refers to a single memory location')
  self.p[...] = cast_p(p, dt, self.dtype)
  torch._C._autograd._unsafe_set_version_counter if False else None


def out_variant(func, h, args, kwargs):
  kw = dict(kwargs)
  out = kw.pop('out')
  packet = func._overloadpacket
  names = [o for o in packet.overloads() if 'out' not in o]
  ov = func._overloadname.replace('_out', '').replace('out', '')
  f2 = getattr(packet, ov if ov else 'default', None) or getattr(packet, names[0])
  r = h(f2, args, kw)
  if isinstance(out, SymTensor) and isinstance(r, SymTensor):
    store(out, r.p, r.dtype)
    return out
  raise Unsupported('out= variant of %s' % func)


# ---------------------------------------------------------------- helpers ---
def PP(x):
  return payload(x) if isinstance(x, torch.Tensor) else scal(x)


def kindx(x):
  if isinstance(x, torch.Tensor):
    return kind_of(x.dtype)
  return 'b' if isinstance(x, bool) else 'i' if isinstance(x, int) else 'f'


def result(func, args, kwargs):
  return meta_run(func, args, kwargs)


def pointwise(func, args, kwargs, f, nargs, common=None):
  """f(kind, *scalars); operands converted to `common` (default: result kind)"""
  m = result(func, args, kwargs)
  ops = args[:nargs]
  if common is None:
    cdt = m.dtype
  else:
    cdt = common
  ck = kind_of(cdt)
  ps = []
  for o in ops:
    p = PP(o)
    k = kindx(o)
    if k != ck or (ck == 'i' and isinstance(o, torch.Tensor) and o.dtype != cdt):
      p = vmap(lambda v: cast(v, k, ck, cdt), p)
    ps.append(p)
  out = vmap(lambda *v: f(ck, *v), *ps)
  out = np.broadcast_to(out, tuple(m.shape)) if out.shape != tuple(m.shape) else out
  rk = kind_of(m.dtype)
  if rk == 'i':
    out = vmap(lambda v: wrap_int(v, m.dtype), out)
  return sym(out, m.dtype, dev_of(args, kwargs))


def common_dtype(a, b):
  a = to_meta(a) if isinstance(a, torch.Tensor) else a
  b = to_meta(b) if isinstance(b, torch.Tensor) else b
  return torch.result_type(a, b)


def s_add(k, a, b):
  if k == 'b': return bor(a, b)
  return fadd(a, b) if k == 'f' else int_bin('add', a, b)


def s_sub(k, a, b):
  return fadd(a, fneg(b)) if k == 'f' else int_bin('sub', a, b)


def s_mul(k, a, b):
  if k == 'b': return band(a, b)
  return fmul(a, b) if k == 'f' else int_bin('mul', a, b)


def s_cmp(opn):
  def f(k, a, b):
    if k == 'b':
      a, b = bool2int(a), bool2int(b)
      k = 'i'
    g = fcmp if k == 'f' else int_cmp
    if opn == 'gt': return g('lt', b, a)
    if opn == 'ge': return g('le', b, a)
    if opn == 'ne':
      return bnot(g('eq', a, b))
    return g(opn, a, b)
  return f


def s_ite(k, c, a, b):
  if k == 'b': return bite(c, a, b)
  if k == 'f': return fite(c, a, b)
  return int_ite(c, a, b)


def s_max(k, a, b):
  if k == 'f':
    if isnum(a) and isnum(b): return max(a, b)
    r = fite(fcmp('le', a, b), b, a)
    for x in (a, b):      # max(a, b) >= a, b
      l = lbound(x)
      if l is not None and not (isinstance(r, F) and r.sp): r = with_lb(r, l)
    return r
  return int_bin('max', bool2int(a) if k == 'b' else a, bool2int(b) if k == 'b' else b)


def s_min(k, a, b):
  if k == 'f':
    if isnum(a) and isnum(b): return min(a, b)
    return fite(fcmp('le', a, b), a, b)
  return int_bin('min', a, b)


def select_opts(opts, vals, k):
  """value of vals[o] under guards; opts exclusive and exhaustive"""
  if len(opts) == 1:
    return vals(opts[0][0])
  if k == 'b':
    return bany(band(g, vals(o)) for o, g in opts)
  if k == 'f':
    acc = Acc()
    part = {}
    for o, g in opts:
      v = vals(o)
      acc.add(v, g)
      if part is not None:
        pv = v.part if isinstance(v, F) else [(v, True)] if isnum(v) else None
        if pv is None: part = None
        else:
          for w, h in pv:
            gh = band(g, h)
            if gh is not False: part[w] = bor(part.get(w, False), gh)
    r = acc.get()
    # identical unguarded term merging: [g1]x + [g2]x with g1|g2 == True
    if isinstance(r, F):
      r = merge_guards(r)
      if part is not None and isinstance(r, F) and not r.sp:
        r.part = list(part.items())
    return r
  # ints
  vs = [(vals(o), g) for o, g in opts]
  if any(is_bv(v) for v, _ in vs):
    e = vs[-1][0]
    for v, g in vs[-2::-1]:
      e = int_ite(g, v, e)
    return e
  out = {}
  for v, g in vs:
    for kk, h in (v.d.items() if isinstance(v, U) else ((v, True),)):
      gh = band(g, h)
      if gh is False: continue
      out[kk] = bor(out.get(kk, False), gh)
  return mkU(out)


def merge_guards(r):
  """[g]c + [h]c with g,h exclusive -> [g|h]c (only when provably exclusive)"""
  for m, cs in r.terms.items():
    if len(cs) < 2:
      continue
    byc = {}
    for g, c in cs.items():
      byc.setdefault(c, []).append(g)
    if len(byc) == len(cs):
      continue
    new = {}
    for c, gs in byc.items():
      cur = None
      for g in gs:
        if cur is None: cur = g
        elif cur is not True and g is not True and band(cur, g) is False:
          cur = bor(cur, g)
        else:
          new[cur] = new.get(cur, 0) + c
          cur = g
      new[cur] = new.get(cur, 0) + c
    r.terms[m] = new
  return vl.mkF(r.terms, r.sp, r.part)


def index_options(v, n):
  """options of index v into a dimension of size n, with bounds check"""
  if not is_symint(v) and not isinstance(v, B):
    v = int(v)
    if not (-n <= v < n):
      raise IndexError('index %d is out of bounds for dimension with size %d' % (v, n))
    return [(v + n if v < 0 else v, True)]
  c = cx.ctx()
  if is_bv(v):
    inb = z3.And(v >= -n, v < n)
    g = gd.zatom(inb)
    if g is False or (g is not True and c.decide(g) is False):
      raise IndexError('index out of bounds for dimension with size %d' % n)
    neg = gd.zatom(v < 0)
    lo = -n if (neg is True or (neg is not False and c.feasible(neg))) else 0
    opts = options_of(v, lo, n)
  else:
    opts = options_of(v)
    bad = bany(g for k, g in opts if not (-n <= k < n))
    if bad is True or (bad is not False and c.decide(bad)):
      raise IndexError('index out of bounds for dimension with size %d' % n)
    opts = [(k, g) for k, g in opts if -n <= k < n]
  out = {}
  for k, g in opts:
    k = k + n if k < 0 else k
    out[k] = bor(out.get(k, False), g)
  return [(k, g) for k, g in out.items() if g is not False]


def lut_gather(table, v):
  """table[v] for a concrete integer table and a bit-vector v, when the table is
  OR-linear in the bits of the index (checked on the actual table); else None"""
  n = len(table)
  if n & (n - 1) or n < 16:
    return None
  nb = n.bit_length() - 1
  key = tuple(table)
  ok = _lut_ok.get(key)
  if ok is None:
    basis = [table[1 << b] for b in range(nb)]
    ok = table[0] == 0
    for i in range(n):
      if not ok: break
      w = 0
      for b in range(nb):
        if i >> b & 1: w |= basis[b]
      ok = (w == table[i])
    _lut_ok[key] = ok
  c = cx.ctx()
  inb = vl.may_ones(v) < n or gd.zatom(z3.And(v >= 0, v < n))
  if inb is False or (inb is not True and not c.decide(inb)):
    return None
  if not ok:      # a decision tree over the bits of the index
    def tree(lo, b):
      if b < 0: return table[lo]
      x, y = tree(lo, b - 1), tree(lo + (1 << b), b - 1)
      if isinstance(x, int) and isinstance(y, int):
        if x == y: return x
      x, y = vl.to_bv(x), vl.to_bv(y)
      return x if x.eq(y) else z3.If(z3.Extract(b, b, v) == 1, y, x)
    return vl.norm_bv(vl.to_bv(tree(0, nb - 1)))
  e = None
  for b in range(nb):
    t = table[1 << b]
    if t == 0: continue
    bit = z3.Extract(b, b, v)
    if t & (t - 1) == 0:
      x = z3.ZeroExt(63, bit) << (t.bit_length() - 1)
    else:
      x = z3.If(bit == 1, z3.BitVecVal(t, 64), z3.BitVecVal(0, 64))
    e = x if e is None else e | x
  return vl.norm_bv(e) if e is not None else 0


_lut_ok = {}


def compact(mask):
  """mask: list of guards.  Forks on the number of true entries; returns a list
  over result rows of [(source index, guard)]."""
  n = len(mask)
  if all(m is True or m is False or not isinstance(m, B) for m in mask):
    return [[(i, True)] for i in range(n) if mask[i]]
  cnt = {0: True}
  ranks = []
  for m in mask:
    ranks.append(cnt)
    if m is False: continue
    new = {}
    nm = bnot(m)
    for k, g in cnt.items():
      a, b = band(g, nm), band(g, m)
      if a is not False: new[k] = bor(new.get(k, False), a)
      if b is not False: new[k + 1] = bor(new.get(k + 1, False), b)
    cnt = new
  total = cx.ctx().choose([(k, g) for k, g in sorted(cnt.items())])
  rows = [[] for _ in range(total)]
  for i, m in enumerate(mask):
    if m is False: continue
    for r, g in ranks[i].items():
      if r < total:
        x = band(m, g)
        if x is not False:
          rows[r].append((i, x))
  return rows


def gather_rows(p, rows, k):
  """p: payload (n, ...) ; rows: options per output row"""
  out = np.empty((len(rows),) + p.shape[1:], dtype=object)
  flat = p.reshape(p.shape[0], -1) if p.size else p.reshape(p.shape[0], int(np.prod(p.shape[1:])))
  of = out.reshape(len(rows), -1) if out.size else out.reshape(len(rows), int(np.prod(p.shape[1:])))
  for r, opts in enumerate(rows):
    if len(opts) == 1:
      of[r] = flat[opts[0][0]]
    else:
      for c in range(flat.shape[1]):
        of[r, c] = select_opts(opts, lambda o: flat[o, c], k)
  return out


# ------------------------------------------------------- indexing operators --
def expand_bool_indices(self, indices):
  """replace boolean masks by integer index arrays (forking on counts)"""
  out = []
  for ix in indices:
    if isinstance(ix, torch.Tensor) and ix.dtype in (torch.bool, torch.uint8):
      p = payload(ix)
      rows = compact(list(p.flat))
      nd = p.ndim
      cols = [np.empty(len(rows), dtype=object) for _ in range(nd)]
      for r, opts in enumerate(rows):
        for d in range(nd):
          o = {}
          for i, g in opts:
            k = np.unravel_index(i, p.shape)[d]
            o[int(k)] = bor(o.get(int(k), False), g)
          cols[d][r] = mkU(o)
      out.extend(cols)
    elif ix is None:
      out.append(None)
    else:
      out.append(payload(ix))
  return out


def index_plan(p, idxs):
  """common broadcasting for advanced indexing.  Returns (perm, index arrays,
  n adv dims, transposed payload, out-shape builder)."""
  idxs = idxs + [None] * (p.ndim - len(idxs))
  adv = [d for d, ix in enumerate(idxs) if ix is not None]
  rest = [d for d in range(p.ndim) if d not in adv]
  arrs = np.broadcast_arrays(*[idxs[d] for d in adv]) if adv else []
  contiguous = adv == list(range(adv[0], adv[0] + len(adv)))
  return adv, rest, arrs, contiguous


@op('index', '_unsafe_index')
def _index(func, args, kwargs):
  self, indices = args[0], list(args[1])
  p = payload(self)
  k = kind_of(self.dtype)
  idxs = expand_bool_indices(self, indices)
  adv, rest, arrs, contiguous = index_plan(p, idxs)
  q = p.transpose(adv + rest)
  sizes = [p.shape[d] for d in adv]
  ishape = arrs[0].shape
  rshape = tuple(p.shape[d] for d in rest)
  n = int(np.prod(ishape)) if ishape else 1
  q2 = q.reshape((int(np.prod(sizes)),) + rshape)
  rows = []
  flat = [a.reshape(-1) for a in arrs]
  qf = q2.reshape(q2.shape[0], int(np.prod(rshape)) if rshape else 1)
  out = np.empty((n, qf.shape[1]), dtype=object)
  luts = {}
  for i in range(n):
    vs = [f[i] for f in flat]
    if k == 'i' and any(is_bv(v) for v in vs):
      r = lut_rows(qf.reshape(tuple(sizes) + qf.shape[1:]), vs, luts)
      if r is not None:
        out[i] = r
        continue
    opts = multi_options(vs, sizes)
    if len(opts) == 1:
      out[i] = qf[opts[0][0]]
    else:
      for c in range(qf.shape[1]):
        out[i, c] = select_opts(opts, lambda o: qf[o, c], k)
  out = out.reshape(ishape + rshape)
  if contiguous and adv and adv[0] > 0:
    # result of adjacent advanced indices goes in place of the first one
    m = len(ishape)
    a0 = adv[0]
    axes = list(range(m, m + a0)) + list(range(m)) + list(range(m + a0, out.ndim))
    out = np.ascontiguousarray(out.transpose(axes))
  return sym(out, self.dtype, self.device)


def lut_rows(q, vs, luts):
  """q[vs] for a concrete integer table, one bit-vector and otherwise concrete indices: the row
  as bit-vector terms; None when it is something else.  luts: cache of the columns"""
  if sum(is_bv(v) for v in vs) != 1 or not all(is_bv(v) or isinstance(v, int) for v in vs):
    return None
  d = [is_bv(v) for v in vs].index(True)
  key = (d,) + tuple(v for v in vs if not is_bv(v))
  cols = luts.get(key)
  if cols is None:
    for i, v in enumerate(vs):
      if not is_bv(v) and not -q.shape[i] <= v < q.shape[i]: return None
    t = q[tuple(slice(None) if is_bv(v) else v for v in vs)]
    cols = [list(t[:, c]) for c in range(t.shape[1])]
    if not all(isinstance(x, int) for c in cols for x in c): cols = False
    luts[key] = cols
  if not cols: return None
  row = np.empty(len(cols), dtype=object)
  for c, col in enumerate(cols):
    r = lut_gather(col, vs[d])
    if r is None: return None
    row[c] = r
  return row


def multi_options(vs, sizes):
  opts = [(0, True)]
  for v, n in zip(vs, sizes):
    o2 = index_options(v, n)
    new = {}
    for a, g in opts:
      for b, h in o2:
        gh = band(g, h)
        if gh is not False:
          key = a * n + b
          new[key] = bor(new.get(key, False), gh)
    opts = list(new.items())
  return opts


@op('index_put', '_index_put_impl')
def _index_put(func, args, kwargs):
  self = args[0]
  r = sym(payload(self).copy(), self.dtype, self.device)
  return index_put_into(r, *args[1:], **kwargs)


@op('index_put_', '_index_put_impl_')
def _index_put_(func, args, kwargs):
  if not isinstance(args[0], SymTensor):
    raise Unsupported('in-place symbolic write into a plain tensor')
  return index_put_into(*args, **kwargs)


def index_put_into(self, indices, values, accumulate=False, unsafe=False):
  p = self.p
  k = kind_of(self.dtype)
  if values.dtype != self.dtype:
    raise RuntimeError('Index put requires the source and destination dtypes match, got %s '
                       'for the destination and %s for the source.' % (self.dtype, values.dtype))
  idxs = expand_bool_indices(self, list(indices))
  adv, rest, arrs, contiguous = index_plan(p, idxs)
  sizes = [p.shape[d] for d in adv]
  ishape = arrs[0].shape
  rshape = tuple(p.shape[d] for d in rest)
  a0 = adv[0] if contiguous else 0
  full = rshape[:a0] + ishape + rshape[a0:]
  v = payload(values)
  try:
    vb = np.broadcast_to(v, full)
  except ValueError:
    raise RuntimeError('shape mismatch: value tensor of shape %s cannot be broadcast to '
                       'indexing result of shape %s' % (list(v.shape), list(full)))
  if a0:
    m = len(ishape)
    axes = list(range(a0, a0 + m)) + list(range(a0)) + list(range(a0 + m, vb.ndim))
    vb = vb.transpose(axes)
  nr = int(np.prod(rshape)) if rshape else 1
  n = int(np.prod(ishape)) if ishape else 1
  vb = vb.reshape(n, nr)
  q = p.transpose(adv + rest)               # view
  flat = [a.reshape(-1) for a in arrs]
  ridx = list(np.ndindex(*rshape)) if rshape else [()]
  for i in range(n):
    opts = multi_options([f[i] for f in flat], sizes)
    for o, g in opts:
      pos = np.unravel_index(o, sizes) if len(sizes) > 1 else (o,)
      pos = tuple(int(x) for x in pos)
      for c, rr in enumerate(ridx):
        w = vb[i, c]
        if accumulate:
          w = s_add(k, q[pos + rr], w)
          if k == 'i': w = wrap_int(w, self.dtype)
        q[pos + rr] = s_ite(k, g, w, q[pos + rr])
  return self


@op('index_select')
def _index_select(func, args, kwargs):
  self, dim, index = args
  p = payload(self)
  dim = dim % max(p.ndim, 1)
  k = kind_of(self.dtype)
  q = np.moveaxis(p, dim, 0)
  for v in payload(index).flat:      # index_select rejects negative indices
    if isinstance(v, int) and v < 0:
      raise IndexError('index out of range in self')
    if is_symint(v):
      neg = int_cmp('lt', v, 0)
      if neg is not False and cx.ctx().decide(neg):
        raise IndexError('index out of range in self')
  vs = payload(index).reshape(-1)
  if k == 'i' and any(is_bv(v) for v in vs):
    q2, luts = q.reshape(q.shape[0], int(np.prod(q.shape[1:]))), {}
    out = np.empty((len(vs), q2.shape[1]), dtype=object)
    for i, v in enumerate(vs):
      r = lut_rows(q2, [v], luts) if is_bv(v) else None
      out[i] = r if r is not None else gather_rows(q2, [index_options(v, q.shape[0])], k)[0]
    out = out.reshape((len(vs),) + q.shape[1:])
  else:
    out = gather_rows(q, [index_options(v, p.shape[dim]) for v in vs], k)
  return sym(np.ascontiguousarray(np.moveaxis(out, 0, dim)), self.dtype, self.device)


@op('gather')
def _gather(func, args, kwargs):
  self, dim, index = args[:3]
  p, ix = payload(self), payload(index)
  dim = dim % p.ndim
  k = kind_of(self.dtype)
  out = np.empty(ix.shape, dtype=object)
  for pos in np.ndindex(*ix.shape):
    if k == 'i' and is_bv(ix[pos]):
      col = p[pos[:dim] + (slice(None),) + pos[dim + 1:]]
      r = lut_rows(col.reshape(-1, 1), [ix[pos]], {})
      if r is not None:
        out[pos] = r[0]
        continue
    opts = index_options(ix[pos], p.shape[dim])
    out[pos] = select_opts(opts, lambda o: p[pos[:dim] + (o,) + pos[dim + 1:]], k)
  return sym(out, self.dtype, self.device)


def _scatter(p, dim, ix, src, k, mode, dt):
  dim = dim % max(p.ndim, 1)
  if mode == 'add' and k == 'f':
    accs = {}
    for pos in np.ndindex(*ix.shape):
      s = src[pos]
      if isnum(s) and s == 0:
        index_options(ix[pos], p.shape[dim])
        continue
      for o, g in index_options(ix[pos], p.shape[dim]):
        d = pos[:dim] + (o,) + pos[dim + 1:]
        a = accs.get(d)
        if a is None:
          a = accs[d] = Acc()
          a.add(p[d])
        a.add(s, g)
    for d, a in accs.items():
      v = a.get()
      p[d] = with_lb(merge_guards(v), v.lb) if isinstance(v, F) else v
    return
  for pos in np.ndindex(*ix.shape):
    s = src[pos]
    for o, g in index_options(ix[pos], p.shape[dim]):
      d = pos[:dim] + (o,) + pos[dim + 1:]
      w = s
      if mode == 'add':
        w = s_add(k, p[d], s)
        if k == 'i': w = wrap_int(w, dt)
      elif mode == 'multiply':
        w = s_mul(k, p[d], s)
      elif mode == 'amax':
        w = s_max(k, p[d], s)
      elif mode == 'amin':
        w = s_min(k, p[d], s)
      p[d] = s_ite(k, g, w, p[d])


def _scatter_common(args, kwargs, inplace_, mode):
  self, dim, index = args[:3]
  src = args[3] if len(args) > 3 else kwargs.get('src', kwargs.get('value'))
  red = kwargs.get('reduce', args[4] if len(args) > 4 else None)
  if red is not None:
    mode = {'add': 'add', 'sum': 'add', 'multiply': 'multiply', 'prod': 'multiply',
            'amax': 'amax', 'amin': 'amin'}.get(red)
    if mode is None or kwargs.get('include_self', True) is False:
      raise Unsupported('scatter reduce %s' % red)
  ix = payload(index)
  if isinstance(src, torch.Tensor):
    if src.dtype != self.dtype:
      raise RuntimeError('scatter(): Expected self.dtype to be equal to src.dtype')
    sp = payload(src)
    for d in range(ix.ndim):
      if ix.shape[d] > sp.shape[d]:
        raise RuntimeError('Expected index to be no larger than src')
  else:
    sp = np.broadcast_to(scal(src), ix.shape)
  for v in ix.flat:
    if isinstance(v, int) and v < 0:
      raise RuntimeError('index is out of bounds')
    if isinstance(v, U) and any(q < 0 for q in v.d):
      bad = bany(g for q, g in v.d.items() if q < 0)
      if cx.ctx().decide(bad):
        raise RuntimeError('index is out of bounds')
  r = self if inplace_ else sym(payload(self).copy(), self.dtype, self.device)
  if not isinstance(r, SymTensor):
    raise Unsupported('in-place symbolic write into a plain tensor')
  _scatter(r.p, dim, ix, sp, kind_of(self.dtype), mode, self.dtype)
  return r


@op('scatter_add')
def _(func, args, kwargs): return _scatter_common(args, kwargs, False, 'add')


@op('scatter_add_')
def _(func, args, kwargs): return _scatter_common(args, kwargs, True, 'add')


@op('scatter', 'scatter_reduce')
def _(func, args, kwargs): return _scatter_common(args, kwargs, False, 'set')


@op('scatter_', 'scatter_reduce_')
def _(func, args, kwargs): return _scatter_common(args, kwargs, True, 'set')


def _index_add_impl(self, dim, index, source, alpha=1):
  p = self.p
  dim = dim % max(p.ndim, 1)
  ix = payload(index).reshape(-1)
  src = payload(source)
  shape = list(src.shape)
  ib = ix.reshape([len(ix) if d == dim else 1 for d in range(src.ndim)])
  ib = np.broadcast_to(ib, src.shape)
  if alpha != 1:
    src = vmap(lambda v: s_mul(kind_of(self.dtype), v, alpha), src)
  _scatter(p, dim, ib, src, kind_of(self.dtype), 'add', self.dtype)
  return self


@op('index_add')
def _(func, args, kwargs):
  self = args[0]
  r = sym(payload(self).copy(), self.dtype, self.device)
  return _index_add_impl(r, *args[1:], **kwargs)


@op('index_add_')
def _(func, args, kwargs): return _index_add_impl(*args, **kwargs)


@op('index_fill', 'index_copy')
def _(func, args, kwargs):
  self, dim, index, val = args[:4]
  r = sym(payload(self).copy(), self.dtype, self.device)
  k = kind_of(self.dtype)
  p = np.moveaxis(r.p, dim, 0)
  for i, v in enumerate(payload(index).reshape(-1)):
    for o, g in index_options(v, p.shape[0]):
      for pos in np.ndindex(*p.shape[1:]):
        w = PP(val)
        w = w[()] if w.ndim == 0 else np.moveaxis(w, dim, 0)[(i,) + pos]
        p[(o,) + pos] = s_ite(k, g, w, p[(o,) + pos])
  return r


@op('masked_fill')
def _(func, args, kwargs):
  self, mask, val = args
  m = result(func, args, kwargs)
  k = kind_of(m.dtype)
  v = PP(val)
  vk = kindx(val)
  v = vmap(lambda x: cast(x, vk, k, m.dtype), v)
  out = vmap(lambda a, c, b: s_ite(k, c, b, a), payload(self), payload(mask), v)
  return sym(out, m.dtype, self.device)


@op('masked_select')
def _(func, args, kwargs):
  self, mask = args
  a, b = np.broadcast_arrays(payload(self), payload(mask))
  rows = compact(list(b.flat))
  out = gather_rows(a.reshape(-1), rows, kind_of(self.dtype))
  return sym(out, self.dtype, self.device)


@op('masked_scatter')
def _(func, args, kwargs):
  self, mask, src = args
  k = kind_of(self.dtype)
  a, b = np.broadcast_arrays(payload(self), payload(mask))
  s = payload(src).reshape(-1)
  out = a.reshape(-1).copy()
  rank = {0: True}
  for i, m in enumerate(b.flat):
    opts = [(r, g) for r, g in rank.items() if r < len(s)]
    if m is not False and opts:
      out[i] = s_ite(k, m, select_opts(opts, lambda o: s[o], k), out[i])
    new = {}
    for r, g in rank.items():
      for rr, gg in ((r + 1, band(g, m)), (r, band(g, bnot(m)))):
        if gg is not False: new[rr] = bor(new.get(rr, False), gg)
    rank = new
  return sym(out.reshape(a.shape), self.dtype, self.device)


@op('nonzero')
def _(func, args, kwargs):
  self = args[0]
  p = payload(self)
  k = kind_of(self.dtype)
  mask = [cast(v, k, 'b', torch.bool) for v in p.flat]
  rows = compact(mask)
  out = np.empty((len(rows), p.ndim), dtype=object)
  for r, opts in enumerate(rows):
    for d in range(p.ndim):
      o = {}
      for i, g in opts:
        key = int(np.unravel_index(i, p.shape)[d])
        o[key] = bor(o.get(key, False), g)
      out[r, d] = mkU(o)
  return sym(out, torch.int64, self.device)


@op('where')
def _(func, args, kwargs):
  if len(args) == 1:
    raise Unsupported('where(cond)')
  c, a, b = args
  m = result(func, args, kwargs)
  k = kind_of(m.dtype)
  pa, pb = PP(a), PP(b)
  ka, kb = kindx(a), kindx(b)
  pa = vmap(lambda v: cast(v, ka, k, m.dtype), pa)
  pb = vmap(lambda v: cast(v, kb, k, m.dtype), pb)
  out = vmap(lambda x, y, z: s_ite(k, x, y, z), payload(c), pa, pb)
  return sym(out, m.dtype, dev_of(args, kwargs))


# --------------------------------------------------------------- pointwise ---
def _alpha(kwargs, args, pos=2):
  return kwargs.get('alpha', args[pos] if len(args) > pos else 1)


@op('add')
def _(func, args, kwargs):
  al = _alpha(kwargs, args)
  def f(k, a, b):
    if al != 1: b = s_mul(k, b, cnum(al))
    return s_add(k, a, b)
  return pointwise(func, args, kwargs, f, 2)


@op('sub', 'subtract')
def _(func, args, kwargs):
  al = _alpha(kwargs, args)
  def f(k, a, b):
    if al != 1: b = s_mul(k, b, cnum(al))
    return s_sub(k, a, b)
  return pointwise(func, args, kwargs, f, 2)


@op('rsub')
def _(func, args, kwargs):
  al = _alpha(kwargs, args)
  def f(k, a, b):
    if al != 1: a = s_mul(k, a, cnum(al))
    return s_sub(k, b, a)
  return pointwise(func, args, kwargs, f, 2)


@op('mul', 'multiply')
def _(func, args, kwargs): return pointwise(func, args, kwargs, s_mul, 2)


@op('div', 'divide', 'true_divide')
def _(func, args, kwargs):
  mode = kwargs.get('rounding_mode')
  def f(k, a, b):
    if mode is None:
      return fdiv(a, b)
    if k == 'i':
      return int_bin('truncdiv' if mode == 'trunc' else 'floordiv', a, b)
    q = fdiv(a, b)
    return int2f(ftrunc(q) if mode == 'trunc' else ffloor(q))
  return pointwise(func, args, kwargs, f, 2)


def int2f(x):
  return lift(x) if is_symint(x) else x


@op('floor_divide')
def _(func, args, kwargs):
  def f(k, a, b):
    return int_bin('floordiv', a, b) if k == 'i' else int2f(ffloor(fdiv(a, b)))
  return pointwise(func, args, kwargs, f, 2)


@op('remainder')
def _(func, args, kwargs):
  def f(k, a, b):
    if k == 'i': return int_bin('mod', a, b)
    return fadd(a, fneg(fmul(b, int2f(ffloor(fdiv(a, b))))))
  return pointwise(func, args, kwargs, f, 2)


@op('fmod')
def _(func, args, kwargs):
  def f(k, a, b):
    if k == 'i': return int_bin('fmod', a, b)
    return fadd(a, fneg(fmul(b, int2f(ftrunc(fdiv(a, b))))))
  return pointwise(func, args, kwargs, f, 2)


for _n in ('and', 'or', 'xor'):
  def _mk(n):
    bf = {'and': band, 'or': bor, 'xor': bxor}[n]
    def h(func, args, kwargs):
      return pointwise(func, args, kwargs, lambda k, a, b: bf(a, b) if k == 'b'
                       else int_bin(n, a, b), 2)
    return h
  _h = _mk(_n)
  OPS['bitwise_' + _n] = _h
  OPS['__%s__' % _n] = _h


@op('bitwise_not')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a: bnot(a) if k == 'b' else
                   int_bin('sub', int_bin('sub', 0, a), 1), 1)


@op('__lshift__', 'bitwise_left_shift')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a, b: int_bin('shl', a, b), 2)


@op('__rshift__', 'bitwise_right_shift')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a, b: int_bin('shr', a, b), 2)


def _tobool(x):
  p, k = PP(x), kindx(x)
  return vmap(lambda v: cast(v, k, 'b', torch.bool), p)


for _n, _f in (('logical_and', band), ('logical_or', bor), ('logical_xor', bxor)):
  def _mk(f):
    def h(func, args, kwargs):
      return sym(vmap(f, _tobool(args[0]), _tobool(args[1])), torch.bool, dev_of(args, kwargs))
    return h
  OPS[_n] = _mk(_f)


@op('logical_not')
def _(func, args, kwargs):
  return sym(vmap(bnot, _tobool(args[0])), torch.bool, dev_of(args, kwargs))


for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
  def _mk(n):
    f = s_cmp(n)
    def h(func, args, kwargs):
      return pointwise(func, args, kwargs, f, 2, common_dtype(args[0], args[1]))
    return h
  OPS[_n] = _mk(_n)


@op('maximum')
def _(func, args, kwargs): return pointwise(func, args, kwargs, s_max, 2)


@op('minimum')
def _(func, args, kwargs): return pointwise(func, args, kwargs, s_min, 2)


@op('clamp', 'clip')
def _(func, args, kwargs):
  self = args[0]
  lo = args[1] if len(args) > 1 else kwargs.get('min')
  hi = args[2] if len(args) > 2 else kwargs.get('max')
  m = result(func, args, kwargs)
  k = kind_of(m.dtype)
  sk = kind_of(self.dtype)
  out = vmap(lambda v: cast(v, sk, k, m.dtype), payload(self))
  if lo is not None:
    kl = kindx(lo)
    out = vmap(lambda a, b: s_max(k, a, cast(b, kl, k, m.dtype)), out, PP(lo))
  if hi is not None:
    kh = kindx(hi)
    out = vmap(lambda a, b: s_min(k, a, cast(b, kh, k, m.dtype)), out, PP(hi))
  return sym(out, m.dtype, self.device)


@op('clamp_min')
def _(func, args, kwargs): return pointwise(func, args, kwargs, s_max, 2)


@op('clamp_max')
def _(func, args, kwargs): return pointwise(func, args, kwargs, s_min, 2)


@op('neg')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a: fneg(a) if k == 'f' else
                   int_bin('sub', 0, a), 1)


@op('abs')
def _(func, args, kwargs):
  def f(k, a):
    if k == 'f':
      if isnum(a) or isinstance(a, float): return abs(a)
      sg = vl.fsign(a)
      if sg is not None: return a if sg > 0 else fneg(a)
      return fite(fcmp('lt', a, 0), fneg(a), a)
    return int_ite(int_cmp('lt', a, 0), int_bin('sub', 0, a), a)
  return pointwise(func, args, kwargs, f, 1)


@op('sign', 'sgn')
def _(func, args, kwargs):
  def f(k, a):
    if k == 'f':
      return fite(fcmp('lt', a, 0), -1, fite(fcmp('eq', a, 0), 0, 1))
    return int_ite(int_cmp('lt', a, 0), -1, int_ite(int_cmp('eq', a, 0), 0, 1))
  return pointwise(func, args, kwargs, f, 1)


@op('floor')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a: int2f(ffloor(a)) if k == 'f' else a, 1)


@op('ceil')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a: fneg(int2f(ffloor(fneg(a))))
                   if k == 'f' else a, 1)


@op('trunc', 'fix')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a: int2f(ftrunc(a)) if k == 'f' else a, 1)


@op('frac')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a: fadd(a, fneg(int2f(ftrunc(a)))), 1)


@op('round')
def _(func, args, kwargs):
  def f(k, a):
    if k != 'f': return a
    if isnum(a): return round(a)
    lo = ffloor(fadd(a, Fraction(1, 2)))          # half up
    tie = fcmp('eq', fadd(int2f(lo), fneg(a)), Fraction(1, 2))
    odd = int_cmp('eq', int_bin('and', lo, 1), 1)
    return int2f(int_ite(band(tie, odd), int_bin('sub', lo, 1), lo))
  return pointwise(func, args, kwargs, f, 1)


for _n in ('sqrt', 'tanh', 'sin', 'cos', 'exp', 'log', 'sigmoid'):
  def _mk(n):
    return lambda func, args, kwargs: pointwise(
        func, args, kwargs, lambda k, a: funary(n, a), 1)
  OPS[_n] = _mk(_n)


@op('rsqrt')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a: fdiv(1, funary('sqrt', a)), 1)


@op('reciprocal')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a: fdiv(1, a), 1)


@op('square')
def _(func, args, kwargs):
  return pointwise(func, args, kwargs, lambda k, a: s_mul(k, a, a), 1)


@op('pow')
def _(func, args, kwargs):
  base, e = args
  m = result(func, args, kwargs)
  if isinstance(e, torch.Tensor):
    pe = payload(e)
    if not is_concrete(pe):
      raise Unsupported('pow with symbolic exponent')
  def f(k, a, b):
    if k == 'i':
      return int_bin('shl', 1, b) if a == 2 and isinstance(a, int) else int_map(lambda q: q ** b, a)
    b = Fraction(b)
    if b.denominator == 1 and abs(b) <= 8:
      n = int(b)
      r = 1
      for _ in range(abs(n)): r = fmul(r, a)
      return r if n >= 0 else fdiv(1, r)
    if b == Fraction(1, 2): return funary('sqrt', a)
    if b == Fraction(-1, 2): return fdiv(1, funary('sqrt', a))
    if isnum(a): return cnum(float(a) ** float(b))
    raise Unsupported('pow')
  return pointwise(func, args, kwargs, f, 2)


@op('relu')
def _(func, args, kwargs):
  if cx.ctx() is not None and cx.ctx().flags.get('relu_atoms'):
    def f(k, a):
      if isinstance(a, F) and not a.sp and not vl.is_const_poly(a): return vl.funary('relu', a)
      return s_max(k, a, 0)
    return pointwise(func, args, kwargs, f, 1)
  return pointwise(func, args, kwargs, lambda k, a: s_max(k, a, 0), 1)


@op('leaky_relu')
def _(func, args, kwargs):
  s = cnum(args[1] if len(args) > 1 else 0.01)
  return pointwise(func, args[:1], kwargs, lambda k, a: fite(fcmp('lt', a, 0), fmul(a, s), a), 1)


@op('threshold_backward')
def _(func, args, kwargs):
  g, x, t = args
  m = result(func, args, kwargs)
  out = vmap(lambda a, b: fite(fcmp('le', b, cnum(t)), 0, a), payload(g), payload(x))
  return sym(out, m.dtype, g.device)


@op('tanh_backward')
def _(func, args, kwargs):
  g, y = args
  out = vmap(lambda a, b: fmul(a, fadd(1, fneg(fmul(b, b)))), payload(g), payload(y))
  return sym(out, g.dtype, g.device)


@op('isnan')
def _(func, args, kwargs):
  def f(v):
    if isinstance(v, float): return v != v
    if isinstance(v, F): return v.sp.get('nan', False)
    return False
  return sym(vmap(f, payload(args[0])), torch.bool, args[0].device)


@op('isinf')
def _(func, args, kwargs):
  def f(v):
    if isinstance(v, float): return v == v
    if isinstance(v, F): return bor(v.sp.get('inf', False), v.sp.get('-inf', False))
    return False
  return sym(vmap(f, payload(args[0])), torch.bool, args[0].device)


@op('isfinite')
def _(func, args, kwargs):
  def f(v):
    if isinstance(v, float): return False
    if isinstance(v, F): return bnot(bany(v.sp.values())) if v.sp else True
    return True
  return sym(vmap(f, payload(args[0])), torch.bool, args[0].device)


@op('nan_to_num')
def _(func, args, kwargs):
  self = args[0]
  nan = args[1] if len(args) > 1 and args[1] is not None else 0.0
  pi = args[2] if len(args) > 2 and args[2] is not None else torch.finfo(self.dtype).max
  ni = args[3] if len(args) > 3 and args[3] is not None else torch.finfo(self.dtype).min
  def f(v):
    if isinstance(v, float):
      return cnum(nan if v != v else pi if v > 0 else ni)
    if isinstance(v, F) and v.sp:
      r = vl.mkF(v.terms)
      r = fite(v.sp.get('nan', False), cnum(nan), r)
      r = fite(v.sp.get('inf', False), cnum(pi), r)
      return fite(v.sp.get('-inf', False), cnum(ni), r)
    return v
  return sym(vmap(f, payload(self)), self.dtype, self.device)


@op('lerp')
def _(func, args, kwargs):
  a, b, w = args
  out = vmap(lambda x, y, z: fadd(x, fmul(z, fadd(y, fneg(x)))), payload(a), payload(b), PP(w))
  return sym(out, a.dtype, a.device)


@op('addcmul')
def _(func, args, kwargs):
  a, b, c = args[:3]
  v = cnum(kwargs.get('value', 1))
  out = vmap(lambda x, y, z: fadd(x, fmul(v, fmul(y, z))), payload(a), payload(b), payload(c))
  return sym(out, a.dtype, a.device)


@op('addcdiv')
def _(func, args, kwargs):
  a, b, c = args[:3]
  v = cnum(kwargs.get('value', 1))
  out = vmap(lambda x, y, z: fadd(x, fmul(v, fdiv(y, z))), payload(a), payload(b), payload(c))
  return sym(out, a.dtype, a.device)


# ---------------------------------------------------------------- reductions -
def norm_dims(dim, nd):
  if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
    return list(range(nd))
  if isinstance(dim, int):
    dim = [dim]
  return [d % nd if nd else 0 for d in dim]


def reduce_payload(p, dims, keep, f):
  nd = p.ndim
  if nd == 0:
    out = np.empty((), dtype=object)
    out[()] = f([p[()]])
    return out
  rest = [d for d in range(nd) if d not in dims]
  q = p.transpose(rest + dims)
  rs = tuple(p.shape[d] for d in rest)
  q = q.reshape(rs + (int(np.prod([p.shape[d] for d in dims])),))
  out = np.empty(rs, dtype=object)
  for pos in np.ndindex(*rs):
    out[pos] = f(list(q[pos]))
  if keep:
    out = out.reshape([1 if d in dims else p.shape[d] for d in range(nd)])
  return out


def sum_list(k, xs):
  if k == 'f':
    a = Acc()
    for x in xs: a.add(x)
    r = a.get()
    return r
  r = 0
  for x in xs:
    r = int_bin('add', r, x)
  return r


@op('sum')
def _(func, args, kwargs):
  self = args[0]
  m = result(func, args, kwargs)
  dim = args[1] if len(args) > 1 else kwargs.get('dim')
  keep = args[2] if len(args) > 2 else kwargs.get('keepdim', False)
  p = payload(self)
  k = kind_of(m.dtype)
  sk = kind_of(self.dtype)
  p = vmap(lambda v: cast(v, sk, k, m.dtype), p) if sk != k else p
  out = reduce_payload(p, norm_dims(dim, p.ndim), keep, lambda xs: sum_list(k, xs))
  if k == 'i': out = vmap(lambda v: wrap_int(v, m.dtype), out)
  return sym(out, m.dtype, self.device)


@op('mean')
def _(func, args, kwargs):
  self = args[0]
  m = result(func, args, kwargs)
  dim = args[1] if len(args) > 1 else kwargs.get('dim')
  keep = args[2] if len(args) > 2 else kwargs.get('keepdim', False)
  p = payload(self)
  out = reduce_payload(p, norm_dims(dim, p.ndim), keep,
                       lambda xs: fdiv(sum_list('f', xs), len(xs)))
  return sym(out, m.dtype, self.device)


@op('_softmax', '_log_softmax')
def _(func, args, kwargs):
  self, dim = args[0], args[1]
  m = result(func, args, kwargs)
  p = payload(self)
  log = 'log' in func._schema.name
  d = norm_dims(dim, p.ndim)[0]
  q = np.moveaxis(p, d, -1) if p.ndim else p.reshape(1)
  out = np.empty(q.shape, dtype=object)
  for pos in np.ndindex(*q.shape[:-1]):
    ex = [funary('exp', x) for x in q[pos]]
    t = sum_list('f', ex)
    for j, x in enumerate(q[pos]):
      out[pos + (j,)] = fadd(x, fneg(funary('log', t))) if log else fdiv(ex[j], t)
  return sym(np.moveaxis(out, -1, d) if p.ndim else out.reshape(()), m.dtype, self.device)


@op('nll_loss_forward')
def _(func, args, kwargs):
  x, y, weight, red, ignore = args
  if weight is not None: raise Unsupported('nll_loss with weights')
  p, t = payload(x), payload(y)
  if p.ndim == 1: p, t = p.reshape(1, -1), t.reshape(1)
  if tuple(t.shape) != (p.shape[0],): raise Unsupported('shape of nll_loss')
  rows, used = [], []
  for r, k in zip(p, t):
    opts = [(j, int_cmp('eq', k, j)) for j in range(p.shape[1])]
    ig = int_cmp('eq', k, ignore) if not 0 <= ignore < p.shape[1] else False
    ok = bany([g for _, g in opts] + [ig])
    if ok is not True and not cx.ctx().decide(ok):
      raise IndexError('Target is out of bounds.')
    rows.append(sum_list('f', [fmul_guard(fneg(r[j]), g) for j, g in opts]))
    used.append(bnot(ig))
  n = sum_list('i', [bool2int(g) if g is not True else 1 for g in used])
  total = n if isinstance(n, int) else int2f(n)
  if red == 0: v = np.array(rows + [None], dtype=object)[:-1].reshape(t.shape)
  else:
    s = sum_list('f', rows)
    v = scal(fdiv(s, total) if red == 1 else s)
  return sym(v, x.dtype, x.device), sym(scal(total), x.dtype, x.device)


def fmul_guard(v, g):
  return v if g is True else 0 if g is False else fite(g, v, 0)


@op('prod')
def _(func, args, kwargs):
  self = args[0]
  m = result(func, args, kwargs)
  dim = args[1] if len(args) > 1 else None
  keep = args[2] if len(args) > 2 else False
  p = payload(self)
  k = kind_of(m.dtype)
  def f(xs):
    r = 1
    for x in xs: r = s_mul(k, r, x)
    return r
  return sym(reduce_payload(p, norm_dims(dim, p.ndim), keep, f), m.dtype, self.device)


def _boolred(comb):
  def h(func, args, kwargs):
    self = args[0]
    m = result(func, args, kwargs)
    dim = args[1] if len(args) > 1 else kwargs.get('dim')
    keep = args[2] if len(args) > 2 else kwargs.get('keepdim', False)
    p = _tobool(self)
    return sym(reduce_payload(p, norm_dims(dim, p.ndim), keep, comb), m.dtype, self.device)
  return h


OPS['any'] = _boolred(bany)
OPS['all'] = _boolred(ball)


def ext_idx(k, xs, largest=True):
  """first index of the extreme value, as options, plus the value"""
  n = len(xs)
  if all(is_concrete_scalar(x) for x in xs):
    best = 0
    for i in range(1, n):
      if (xs[i] > xs[best]) if largest else (xs[i] < xs[best]): best = i
    return [(best, True)], xs[best]
  if k == 'b':
    xs = [bool2int(x) for x in xs]
    k = 'i'
  cmp = fcmp if k == 'f' else int_cmp
  opts = []
  lt = {}
  def less(i, j):           # xs[i] < xs[j] in the chosen order
    if (i, j) not in lt:
      lt[i, j] = cmp('lt', xs[i], xs[j]) if largest else cmp('lt', xs[j], xs[i])
    return lt[i, j]
  for j in range(n):
    g = True
    for i in range(n):
      if i == j: continue
      g = band(g, less(i, j) if i < j else bnot(less(j, i)))
      if g is False: break
    if g is not False:
      opts.append((j, g))
  return opts, select_opts(opts, lambda o: xs[o], k)


def _ext(largest, want):
  def h(func, args, kwargs):
    self = args[0]
    m = result(func, args, kwargs)
    p = payload(self)
    k = kind_of(self.dtype)
    if want == 'val' and len(args) == 1 and 'dim' not in kwargs:      # max()
      xs = list(p.flat)
      if k == 'i':
        r = xs[0]
        for x in xs[1:]: r = int_bin('max' if largest else 'min', r, x)
      else:
        r = ext_idx(k, xs, largest)[1]
      return sym(scal(r) if not isinstance(r, float) else scal(r), m.dtype, self.device)
    dim = args[1] if len(args) > 1 else kwargs.get('dim')
    keep = args[2] if len(args) > 2 else kwargs.get('keepdim', False)
    if want == 'val' and isinstance(dim, torch.Tensor):
      raise Unsupported('max.other')
    dims = norm_dims(dim, p.ndim)
    vals, idxs = [], []
    def f(xs):
      o, v = ext_idx(k, xs, largest)
      vals.append(v)
      idxs.append(mkU({i: g for i, g in o}))
      return 0
    shape = reduce_payload(p, dims, keep, f).shape
    V, I = from_flat(vals, shape), from_flat(idxs, shape)
    if want == 'both':
      return torch.return_types.max((sym(V, self.dtype, self.device),
                                     sym(I, torch.int64, self.device))) if largest else \
          torch.return_types.min((sym(V, self.dtype, self.device),
                                  sym(I, torch.int64, self.device)))
    if want == 'arg':
      return sym(I, torch.int64, self.device)
    return sym(V, self.dtype, self.device)
  return h


def _maxmin(largest):
  both, val = _ext(largest, 'both'), _ext(largest, 'val')
  def h(func, args, kwargs):
    ov = func._overloadname
    if ov == 'dim':
      return both(func, args, kwargs)
    if ov == 'other':
      return pointwise(func, args, kwargs, s_max if largest else s_min, 2)
    return val(func, args, kwargs)
  return h


OPS['max'], OPS['min'] = _maxmin(True), _maxmin(False)
OPS['amax'], OPS['amin'] = _ext(True, 'val'), _ext(False, 'val')
OPS['argmax'], OPS['argmin'] = _ext(True, 'arg'), _ext(False, 'arg')


@op('aminmax')
def _(func, args, kwargs):
  raise Unsupported('aminmax')


@op('cumsum')
def _(func, args, kwargs):
  self, dim = args[:2]
  m = result(func, args, kwargs)
  p = payload(self)
  k, sk = kind_of(m.dtype), kind_of(self.dtype)
  if p.ndim == 0:
    return sym(vmap(lambda v: cast(v, sk, k, m.dtype), p), m.dtype, self.device)
  q = np.moveaxis(p, dim, 0)
  out = np.empty(q.shape, dtype=object)
  for pos in np.ndindex(*q.shape[1:]):
    r = 0
    for i in range(q.shape[0]):
      r = s_add(k, r, cast(q[(i,) + pos], sk, k, m.dtype))
      if k == 'i': r = wrap_int(r, m.dtype)
      out[(i,) + pos] = r
  return sym(np.ascontiguousarray(np.moveaxis(out, 0, dim)), m.dtype, self.device)


@op('linalg_vector_norm', 'norm')
def _(func, args, kwargs):
  self = args[0]
  if func._schema.name.endswith('::norm'):
    pw = args[1] if len(args) > 1 else 2
    dim = args[2] if len(args) > 2 else kwargs.get('dim')
    keep = args[3] if len(args) > 3 else kwargs.get('keepdim', False)
  else:
    pw = args[1] if len(args) > 1 else 2
    dim = args[2] if len(args) > 2 else kwargs.get('dim')
    keep = args[3] if len(args) > 3 else kwargs.get('keepdim', False)
  if pw is None: pw = 2
  p = payload(self)
  def f(xs):
    if pw == 2:
      return funary('sqrt', sum_list('f', [fmul(x, x) for x in xs]))
    if pw == 1:
      return sum_list('f', [fite(fcmp('lt', x, 0), fneg(x), x) for x in xs])
    raise Unsupported('norm p=%s' % pw)
  out = reduce_payload(p, norm_dims(dim, p.ndim), keep, f)
  return sym(out, self.dtype, self.device)


@op('var', 'std')
def _(func, args, kwargs):
  self = args[0]
  p = payload(self)
  m = result(func, args, kwargs)
  dim = args[1] if len(args) > 1 else kwargs.get('dim')
  if isinstance(dim, bool): dim = None
  corr = kwargs.get('correction', 1)
  if len(args) > 2 and isinstance(args[2], bool): corr = 1 if args[2] else 0
  keep = kwargs.get('keepdim', False)
  std = func._schema.name.endswith('std')
  def f(xs):
    mu = fdiv(sum_list('f', xs), len(xs))
    d = [fadd(x, fneg(mu)) for x in xs]
    v = fdiv(sum_list('f', [fmul(x, x) for x in d]), len(xs) - corr)
    return funary('sqrt', v) if std else v
  return sym(reduce_payload(p, norm_dims(dim, p.ndim), keep, f), m.dtype, self.device)


# ---------------------------------------------------------------- matmul -----
def matmul2(a, b):
  n, kk = a.shape
  m = b.shape[1]
  out = np.empty((n, m), dtype=object)
  cols = [[(j, b[j, c]) for j in range(kk)
           if not (isnum(b[j, c]) and b[j, c] == 0)] for c in range(m)]
  for i in range(n):
    row = a[i]
    nz = [not (isnum(x) and x == 0) for x in row]
    for c in range(m):
      acc = Acc()
      for j, bv in cols[c]:
        if nz[j]:
          acc.add(fmul(row[j], bv))
      v = acc.get()
      out[i, c] = merge_guards(v) if isinstance(v, F) else v
  return out


def matmul2i(a, b, dt):
  n, kk = a.shape
  m = b.shape[1]
  out = np.empty((n, m), dtype=object)
  for i in range(n):
    for c in range(m):
      r = 0
      for j in range(kk):
        r = int_bin('add', r, int_bin('mul', a[i, j], b[j, c]))
      out[i, c] = wrap_int(r, dt)
  return out


@op('mm')
def _(func, args, kwargs):
  a, b = args
  m = result(func, args, kwargs)
  if kind_of(m.dtype) == 'i':
    return sym(matmul2i(payload(a), payload(b), m.dtype), m.dtype, a.device)
  return sym(matmul2(payload(a), payload(b)), m.dtype, a.device)


@op('addmm')
def _(func, args, kwargs):
  c, a, b = args
  m = result(func, args, kwargs)
  be, al = cnum(kwargs.get('beta', 1)), cnum(kwargs.get('alpha', 1))
  r = matmul2(payload(a), payload(b))
  r = vmap(lambda x, y: fadd(fmul(be, x), fmul(al, y)), payload(c), r)
  return sym(r, m.dtype, a.device)


@op('bmm')
def _(func, args, kwargs):
  a, b = args
  m = result(func, args, kwargs)
  pa, pb = payload(a), payload(b)
  out = np.empty((pa.shape[0], pa.shape[1], pb.shape[2]), dtype=object)
  for i in range(pa.shape[0]):
    out[i] = matmul2(pa[i], pb[i])
  return sym(out, m.dtype, a.device)


@op('mv')
def _(func, args, kwargs):
  a, b = args
  return sym(matmul2(payload(a), payload(b).reshape(-1, 1)).reshape(-1), a.dtype, a.device)


@op('dot')
def _(func, args, kwargs):
  a, b = args
  return sym(matmul2(payload(a).reshape(1, -1), payload(b).reshape(-1, 1)).reshape(()),
             a.dtype, a.device)


# ---------------------------------------------------------------- views ------
def view_like(self, arr):
  return sym(arr, self.dtype, self.device)


@op('view', '_unsafe_view', '_reshape_alias')
def _(func, args, kwargs):
  self = args[0]
  m = result(func, args, kwargs)
  if isinstance(args[1], torch.dtype):
    raise Unsupported('view dtype')
  return view_like(self, payload(self).reshape(tuple(m.shape)))


@op('expand')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  return view_like(args[0], np.broadcast_to(payload(args[0]), tuple(m.shape)))


@op('permute')
def _(func, args, kwargs):
  return view_like(args[0], payload(args[0]).transpose(args[1]))


@op('transpose')
def _(func, args, kwargs):
  return view_like(args[0], payload(args[0]).swapaxes(args[1], args[2]))


@op('t', 'numpy_T')
def _(func, args, kwargs):
  return view_like(args[0], payload(args[0]).T)


@op('unsqueeze')
def _(func, args, kwargs):
  d = args[1]
  p = payload(args[0])
  return view_like(args[0], np.expand_dims(p, d if d >= 0 else d + p.ndim + 1))


@op('squeeze')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  return view_like(args[0], payload(args[0]).reshape(tuple(m.shape)))


@op('select')
def _(func, args, kwargs):
  self, dim, i = args
  p = payload(self)
  n = p.shape[dim]
  if not -n <= i < n:
    raise IndexError('select(): index %d out of range' % i)
  ix = [slice(None)] * p.ndim
  ix[dim % p.ndim] = slice(i % n, i % n + 1)
  q = p[tuple(ix)]
  return view_like(self, q.squeeze(dim % p.ndim) if p.ndim > 1 else q.reshape(()))


@op('slice')
def _(func, args, kwargs):
  self = args[0]
  p = payload(self)
  a = list(args[1:]) + [None] * (4 - len(args[1:]))
  dim = a[0] if a[0] is not None else kwargs.get('dim', 0)
  st, en = a[1], a[2]
  step = a[3] if a[3] is not None else kwargs.get('step', 1)
  st = kwargs.get('start', st)
  en = kwargs.get('end', en)
  ix = [slice(None)] * p.ndim
  n = p.shape[dim]
  if st is None: st = 0
  if en is None: en = n
  if st < 0: st = max(st + n, 0)
  if en < 0: en = max(en + n, 0)
  ix[dim % p.ndim] = slice(min(st, n), max(min(en, n), min(st, n)), step)
  return view_like(self, p[tuple(ix)])


@op('split')
def _(func, args, kwargs):
  self, size = args[:2]
  dim = args[2] if len(args) > 2 else kwargs.get('dim', 0)
  m = result(func, args, kwargs)
  return _split(self, [t.shape[dim] for t in m], dim)


@op('split_with_sizes')
def _(func, args, kwargs):
  self, sizes = args[:2]
  dim = args[2] if len(args) > 2 else kwargs.get('dim', 0)
  result(func, args, kwargs)
  return _split(self, sizes, dim)


def _split(self, sizes, dim):
  p = payload(self)
  out, pos = [], 0
  for s in sizes:
    ix = [slice(None)] * p.ndim
    ix[dim % p.ndim] = slice(pos, pos + s)
    out.append(view_like(self, p[tuple(ix)]))
    pos += s
  return out


@op('unbind')
def _(func, args, kwargs):
  self = args[0]
  dim = args[1] if len(args) > 1 else kwargs.get('dim', 0)
  p = payload(self)
  out = []
  for i in range(p.shape[dim]):
    ix = [slice(None)] * p.ndim
    ix[dim % p.ndim] = slice(i, i + 1)
    q = p[tuple(ix)]
    out.append(view_like(self, q.squeeze(dim % p.ndim)))
  return out


@op('alias', 'detach', 'lift_fresh', 'lift', 'view_as', 'detach_')
def _(func, args, kwargs):
  return view_like(args[0], payload(args[0])[...])


@op('diagonal')
def _(func, args, kwargs):
  self = args[0]
  o = args[1] if len(args) > 1 else 0
  d1 = args[2] if len(args) > 2 else 0
  d2 = args[3] if len(args) > 3 else 1
  return view_like(self, np.diagonal(payload(self), o, d1, d2))


@op('as_strided')
def _(func, args, kwargs):
  self, size, stride = args[:3]
  off = args[3] if len(args) > 3 else None
  p = payload(self)
  if off:
    raise Unsupported('as_strided with offset')
  if tuple(size) == p.shape and tuple(s * 8 for s in stride) == p.strides:
    return view_like(self, p[...])
  return view_like(self, np.lib.stride_tricks.as_strided(
      p, tuple(size), tuple(s * 8 for s in stride)))


# -------------------------------------------------------------- structural ---
@op('cat', 'concat', 'concatenate')
def _(func, args, kwargs):
  ts = list(args[0])
  dim = args[1] if len(args) > 1 else kwargs.get('dim', 0)
  m = result(func, args, kwargs)
  ps = [cast_p(payload(t), t.dtype, m.dtype) for t in ts
        if not (t.dim() == 1 and t.shape[0] == 0 and len(m.shape) != 1)]
  if not ps:
    return sym(obj(tuple(m.shape)), m.dtype, ts[0].device)
  return sym(np.concatenate(ps, axis=dim), m.dtype, ts[0].device)


@op('stack')
def _(func, args, kwargs):
  ts = list(args[0])
  dim = args[1] if len(args) > 1 else kwargs.get('dim', 0)
  m = result(func, args, kwargs)
  return sym(np.stack([cast_p(payload(t), t.dtype, m.dtype) for t in ts], axis=dim),
             m.dtype, ts[0].device)


@op('repeat')
def _(func, args, kwargs):
  self, reps = args
  result(func, args, kwargs)
  return sym(np.tile(payload(self), reps), self.dtype, self.device)


@op('repeat_interleave')
def _(func, args, kwargs):
  if func._overloadname == 'self_int':
    self, r = args[:2]
    dim = args[2] if len(args) > 2 else kwargs.get('dim')
    return sym(np.repeat(payload(self), r, axis=dim), self.dtype, self.device)
  reps = payload(args[0])
  out = []
  for i, r in enumerate(reps.reshape(-1)):
    out += [i] * vl.concretize_int(r)
  if func._overloadname == 'Tensor':
    return sym(from_flat(out, (len(out),)), torch.int64, args[0].device)
  self, rep = args[:2]
  dim = args[2] if len(args) > 2 else kwargs.get('dim')
  reps = [vl.concretize_int(r) for r in payload(rep).reshape(-1)]
  p = payload(self)
  if dim is None:
    p, dim = p.reshape(-1), 0
  return sym(np.repeat(p, reps, axis=dim), self.dtype, self.device)


@op('flip')
def _(func, args, kwargs):
  return sym(np.flip(payload(args[0]), args[1]).copy(), args[0].dtype, args[0].device)


@op('roll')
def _(func, args, kwargs):
  sh = args[1]
  d = args[2] if len(args) > 2 and args[2] else None
  return sym(np.roll(payload(args[0]), sh, d), args[0].dtype, args[0].device)


@op('constant_pad_nd')
def _(func, args, kwargs):
  self, pad = args[:2]
  val = args[2] if len(args) > 2 else 0
  p = payload(self)
  m = result(func, args, kwargs)
  out = obj(tuple(m.shape), cnum(val))
  ix = [slice(None)] * p.ndim
  for i in range(len(pad) // 2):
    d = p.ndim - 1 - i
    if pad[2 * i] < 0 or pad[2 * i + 1] < 0: raise Unsupported('negative pad')
    ix[d] = slice(pad[2 * i], pad[2 * i] + p.shape[d])
  out[tuple(ix)] = p
  return sym(out, self.dtype, self.device)


@op('clone', 'contiguous')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  p = payload(args[0])
  q = p.copy(order='K')
  st = tuple(s // 8 for s in q.strides)
  if st != m.stride() and q.size > 0:
    q = np.ascontiguousarray(p) if m.is_contiguous() else q
    if q is p or np.shares_memory(q, p): q = p.copy(order='C')
  return sym(q, args[0].dtype, args[0].device)


@op('_to_copy')
def _(func, args, kwargs):
  self = args[0]
  dt = kwargs.get('dtype') or self.dtype
  dev = kwargs.get('device') or self.device
  return sym(cast_p(payload(self), self.dtype, dt).copy(), dt, dev)


@op('copy_')
def _(func, args, kwargs):
  self, src = args[:2]
  if not isinstance(self, SymTensor):
    raise Unsupported('symbolic copy_ into a plain tensor')
  p = cast_p(payload(src), src.dtype, self.dtype)
  self.p[...] = np.broadcast_to(p, self.p.shape)
  return self


@op('fill')
def _(func, args, kwargs):
  self, v = args
  w = PP(v)
  kk = kindx(v)
  w = vmap(lambda x: cast(x, kk, kind_of(self.dtype), self.dtype), w)
  out = obj(tuple(self.shape))
  out[...] = w
  return sym(out, self.dtype, self.device)


@op('zero')
def _(func, args, kwargs):
  return sym(obj(tuple(args[0].shape), zero_of(args[0].dtype)), args[0].dtype, args[0].device)


def zero_of(dt):
  return False if dt == torch.bool else 0


# ---------------------------------------------------------------- factories --
def full_of(shape, v, dt, dev):
  k = kind_of(dt)
  kk = 'b' if isinstance(v, bool) else 'i' if isinstance(v, int) else 'f'
  return sym(obj(tuple(shape), cast(cnum(v) if kk == 'f' else v, kk, k, dt)), dt, dev)


def _fac(val):
  def h(func, args, kwargs):
    m = result(func, args, kwargs)
    return full_of(m.shape, val, m.dtype, dev_of(args, kwargs))
  return h


for _n in ('zeros', 'zeros_like', 'new_zeros'): OPS[_n] = _fac(0)
for _n in ('ones', 'ones_like', 'new_ones'): OPS[_n] = _fac(1)


@op('full', 'full_like', 'new_full')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  v = args[1] if not func._schema.name.endswith('new_full') else args[2]
  return full_of(m.shape, v, m.dtype, dev_of(args, kwargs))


@op('scalar_tensor')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  return full_of((), args[0], m.dtype, dev_of(args, kwargs))


@op('empty', 'empty_like', 'new_empty', 'empty_strided', 'new_empty_strided', 'empty_permuted')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  k = kind_of(m.dtype)
  if k == 'f':
    v = vl.real_atom('uninitialised')
  elif k == 'i':
    v = 0x5A5A5A5A if m.dtype in (torch.int32, torch.int64) else 0x5A
  else:
    v = gd.atom('uninitialised_bool')
  return sym(obj(tuple(m.shape), v), m.dtype, dev_of(args, kwargs))


@op('arange')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  a = [cnum(x) for x in args]
  start, step = 0, 1
  if len(a) >= 2: start = a[0]
  if len(a) >= 3: step = a[2]
  start = cnum(kwargs.get('start', start))
  step = cnum(kwargs.get('step', step))
  n = m.shape[0]
  k = kind_of(m.dtype)
  return sym(from_flat([cast(vl.nrm(start + step * i), 'f' if k == 'f' else 'i', k, m.dtype)
                        for i in range(n)], (n,)), m.dtype, dev_of(args, kwargs))


@op('linspace')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  a, b, n = args[:3]
  st = Fraction(cnum(b) - cnum(a)) / (n - 1) if n > 1 else 0
  return sym(from_flat([vl.nrm(cnum(a) + st * i) for i in range(n)], (n,)), m.dtype,
             dev_of(args, kwargs))


@op('eye')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  p = obj(tuple(m.shape), 0)
  for i in range(min(m.shape)): p[i, i] = 1
  return sym(p, m.dtype, dev_of(args, kwargs))


def _record_random(kindname, p):
  c = cx.ctx()
  c.flags.setdefault('random', []).append((kindname, p))


@op('rand', 'rand_like')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  n = len(cx.ctx().flags.get('random', []))
  p = from_flat([vl.real_atom('rand%d_%d' % (n, i), 0, 1) for i in range(m.numel())],
                tuple(m.shape))
  for f in p.flat:
    a = vl.atom_by_id(next(iter(f.terms))[0])
    cx.ctx().assume_z3(z3.And(a.z >= 0, a.z < 1))
  _record_random('rand', p)
  return sym(p.copy(), m.dtype, dev_of(args, kwargs))


@op('randint', 'randint_like')
def _(func, args, kwargs):
  m = result(func, args, kwargs)
  a = [x for x in args if isinstance(x, int)]
  lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
  lo, hi = kwargs.get('low', lo), kwargs.get('high', hi)
  n = len(cx.ctx().flags.get('random', []))
  vals = []
  for i in range(m.numel()):
    x = z3.BitVec('randint%d_%d' % (n, i), 64)
    if hi - lo == 1:
      vals.append(lo)
      continue
    cx.ctx().assume_z3(z3.And(x >= lo, x < hi))
    vals.append(mkU({v: gd.zatom(x == v) for v in range(lo, hi)}))
  p = from_flat(vals, tuple(m.shape))
  _record_random('randint', p)
  return sym(p.copy(), m.dtype, dev_of(args, kwargs))


@op('bernoulli')
def _(func, args, kwargs):
  self = args[0]
  m = result(func, args, kwargs)
  pr = args[1] if len(args) > 1 and not isinstance(args[1], torch.Generator) else None
  n = len(cx.ctx().flags.get('random', []))
  src = payload(self) if pr is None else PP(pr)
  src = np.broadcast_to(src, tuple(m.shape))
  vals = []
  for i, q in enumerate(src.flat):
    r = vl.real_atom('bern%d_%d' % (n, i), 0, 1)
    a = vl.atom_by_id(next(iter(r.terms))[0])
    cx.ctx().assume_z3(z3.And(a.z >= 0, a.z < 1))
    vals.append(cast(fcmp('lt', r, q), 'b', kind_of(m.dtype), m.dtype))
  p = from_flat(vals, tuple(m.shape))
  _record_random('bernoulli', p)
  return sym(p.copy(), m.dtype, self.device)


# ---------------------------------------------------------- sort and search --
def decide_lt(k, a, b):
  if is_concrete_scalar(a) and is_concrete_scalar(b):
    return a < b
  return cx.ctx().decide(fcmp('lt', a, b) if k == 'f' else int_cmp('lt', a, b))


def decide_eq(k, a, b):
  if is_concrete_scalar(a) and is_concrete_scalar(b):
    return a == b
  return cx.ctx().decide(fcmp('eq', a, b) if k == 'f' else int_cmp('eq', a, b))


def sort_perm(k, xs, desc=False):
  """stable insertion sort deciding comparisons (forks on the order type)"""
  if all(is_concrete_scalar(x) for x in xs):
    return sorted(range(len(xs)), key=lambda i: xs[i], reverse=False) if not desc else \
        sorted(range(len(xs)), key=lambda i: -xs[i])
  order = []
  for i in range(len(xs)):
    j = len(order)
    while j > 0:
      a, b = (xs[i], xs[order[j - 1]]) if not desc else (xs[order[j - 1]], xs[i])
      if decide_lt(k, a, b):
        j -= 1
      else:
        break
    order.insert(j, i)
  return order


@op('sort')
def _(func, args, kwargs):
  self = args[0]
  dim = kwargs.get('dim', -1)
  desc = kwargs.get('descending', False)
  rest = [a for a in args[1:]]
  if func._overloadname == 'stable':
    if len(rest) > 1: dim = rest[1]
    if len(rest) > 2: desc = rest[2]
  else:
    if len(rest) > 0: dim = rest[0]
    if len(rest) > 1: desc = rest[1]
  p = payload(self)
  if p.ndim == 0:
    return (view_like(self, p.copy()), sym(scal(0), torch.int64, self.device))
  k = kind_of(self.dtype)
  q = np.moveaxis(p, dim, -1)
  V, I = np.empty(q.shape, object), np.empty(q.shape, object)
  for pos in np.ndindex(*q.shape[:-1]):
    o = sort_perm(k, list(q[pos]), desc)
    for r, i in enumerate(o):
      V[pos + (r,)], I[pos + (r,)] = q[pos + (i,)], i
  return (sym(np.ascontiguousarray(np.moveaxis(V, -1, dim)), self.dtype, self.device),
          sym(np.ascontiguousarray(np.moveaxis(I, -1, dim)), torch.int64, self.device))


@op('argsort')
def _(func, args, kwargs):
  raise Unsupported('argsort') if len(args) > 3 else Unsupported('argsort')


del OPS['argsort']


@op('topk')
def _(func, args, kwargs):
  self, n = args[:2]
  dim = args[2] if len(args) > 2 else -1
  largest = args[3] if len(args) > 3 else True
  p = payload(self)
  k = kind_of(self.dtype)
  q = np.moveaxis(p, dim, -1)
  V = np.empty(q.shape[:-1] + (n,), object)
  I = np.empty(q.shape[:-1] + (n,), object)
  for pos in np.ndindex(*q.shape[:-1]):
    o = sort_perm(k, list(q[pos]), largest)[:n]
    for r, i in enumerate(o):
      V[pos + (r,)], I[pos + (r,)] = q[pos + (i,)], i
  return (sym(np.moveaxis(V, -1, dim), self.dtype, self.device),
          sym(np.moveaxis(I, -1, dim), torch.int64, self.device))


@op('_unique2', '_unique')
def _(func, args, kwargs):
  self = args[0]
  k = kind_of(self.dtype)
  xs = list(payload(self).flat)
  o = sort_perm(k, xs)
  uniq, inv, cnt = [], [0] * len(xs), []
  for r, i in enumerate(o):
    if r == 0 or not decide_eq(k, xs[o[r - 1]], xs[i]):
      uniq.append(xs[i])
      cnt.append(0)
    inv[i] = len(uniq) - 1
    cnt[-1] += 1
  ret = [sym(from_flat(uniq, (len(uniq),)), self.dtype, self.device),
         sym(from_flat(inv, tuple(self.shape)), torch.int64, self.device)]
  if func._schema.name.endswith('_unique2'):
    ret.append(sym(from_flat(cnt, (len(cnt),)), torch.int64, self.device))
  return tuple(ret)


@op('unique_consecutive')
def _(func, args, kwargs):
  self = args[0]
  dim = kwargs.get('dim', args[3] if len(args) > 3 else None)
  if dim is not None and self.dim() != 1:
    raise Unsupported('unique_consecutive dim')
  k = kind_of(self.dtype)
  xs = list(payload(self).flat)
  uniq, inv, cnt = [], [], []
  for i, x in enumerate(xs):
    if i == 0 or not decide_eq(k, xs[i - 1], x):
      uniq.append(x)
      cnt.append(0)
    inv.append(len(uniq) - 1)
    cnt[-1] += 1
  return (sym(from_flat(uniq, (len(uniq),)), self.dtype, self.device),
          sym(from_flat(inv, tuple(self.shape)), torch.int64, self.device),
          sym(from_flat(cnt, (len(cnt),)), torch.int64, self.device))


@op('unique_dim')
def _(func, args, kwargs):
  self, dim = args[:2]
  if self.dim() != 1:
    raise Unsupported('unique_dim')
  return OPS['_unique2'](aten._unique2.default, (self,), {})


def lower_bound(k, keys, q, right=False):
  """torch's binary search, exactly"""
  cmp = fcmp if k == 'f' else int_cmp
  out = {}
  def rec(lo, hi, g):
    if g is False: return
    if lo >= hi:
      out[lo] = bor(out.get(lo, False), g)
      return
    mid = lo + ((hi - lo) >> 1)
    c = cmp('lt', keys[mid], q) if not right else bnot(cmp('lt', q, keys[mid]))
    rec(mid + 1, hi, band(g, c))
    rec(lo, mid, band(g, bnot(c)))
  rec(0, len(keys), True)
  return mkU(out)


@op('bucketize')
def _(func, args, kwargs):
  q, keys = args[:2]
  return _search(keys, q, kwargs)


@op('searchsorted')
def _(func, args, kwargs):
  keys, q = args[:2]
  if isinstance(keys, torch.Tensor) and keys.dim() != 1:
    raise Unsupported('batched searchsorted')
  if kwargs.get('sorter') is not None:
    raise Unsupported('searchsorted sorter')
  return _search(keys, q, kwargs)


def _search(keys, q, kwargs):
  right = kwargs.get('right', False) or kwargs.get('side') == 'right'
  dt = torch.int32 if kwargs.get('out_int32') else torch.int64
  if isinstance(q, torch.Tensor) and q.dtype != keys.dtype:
    raise RuntimeError('boundary and input value tensors should have same dtype')
  k = kind_of(keys.dtype)
  ks = list(payload(keys).flat)
  memo = {}
  def f(v):
    key = v if is_concrete_scalar(v) else id(v)
    if key not in memo:
      memo[key] = (lower_bound(k, ks, v, right), v)
    return memo[key][0]
  return sym(vmap(f, PP(q)), dt, keys.device)


# ------------------------------------------------------------------ scalars --
@op('_local_scalar_dense', 'item')
def _(func, args, kwargs):
  t = args[0]
  p = payload(t)
  if p.size != 1:
    raise RuntimeError('a Tensor with %d elements cannot be converted to Scalar' % p.size)
  v = p.reshape(-1)[0]
  k = kind_of(t.dtype)
  if k == 'b':
    return cx.ctx().decide(v)
  if k == 'i':
    return vl.concretize_int(v)
  if isinstance(v, F):
    if vl.is_const_poly(v):
      opts = list(vl.partition(v)) if not v.sp else None
      if opts is None: raise Unsupported('item of special')
      return float(cx.ctx().choose(opts))
    raise Unsupported('item() of a symbolic float')
  return float(v)


@op('equal')
def _(func, args, kwargs):
  a, b = args
  if tuple(a.shape) != tuple(b.shape): return False
  k = kind_of(common_dtype(a, b))
  f = s_cmp('eq')
  g = ball(f(k, x, y) for x, y in zip(payload(a).flat, payload(b).flat))
  return cx.ctx().decide(g)


@op('is_same_size')
def _(func, args, kwargs): return tuple(args[0].shape) == tuple(args[1].shape)


@op('native_dropout')
def _(func, args, kwargs):
  self, p = args[:2]
  train = args[2] if len(args) > 2 else True
  if not train or p == 0:
    return (sym(payload(self).copy(), self.dtype), full_of(self.shape, True, torch.bool, 'cpu'))
  raise Unsupported('dropout in training mode')


@op('native_batch_norm', '_native_batch_norm_legit', '_native_batch_norm_legit_no_training',
    'cudnn_batch_norm', '_batch_norm_with_update')
def _(func, args, kwargs):
  name = func._schema.name.split('::')[1]
  x, w, b, rm, rv = args[:5]
  if name.endswith('no_training'):
    train, mom, eps = False, args[5], args[6]
  elif name == '_native_batch_norm_legit' and func._overloadname == 'no_stats':
    raise Unsupported('batch norm without stats')
  else:
    train, mom, eps = args[5], args[6], args[7]
  p = payload(x)
  C = p.shape[1]
  out = np.empty(p.shape, dtype=object)
  means, invs = [], []
  for c in range(C):
    col = p[:, c].reshape(-1)
    if train:
      n = len(col)
      mu = fdiv(sum_list('f', list(col)), n)
      var = fdiv(sum_list('f', [fmul(fadd(v, fneg(mu)), fadd(v, fneg(mu))) for v in col]), n)
    else:
      mu, var = payload(rm)[c], payload(rv)[c]
    inv = fdiv(1, funary('sqrt', fadd(var, cnum(eps))))
    wc = payload(w)[c] if w is not None else 1
    bc = payload(b)[c] if b is not None else 0
    sc = fmul(inv, wc)
    for pos in np.ndindex(*((p.shape[0],) + p.shape[2:])):
      ix = (pos[0], c) + pos[1:]
      out[ix] = fadd(fmul(fadd(p[ix], fneg(mu)), sc), bc)
    means.append(mu)
    invs.append(inv)
  e = from_flat(means, (C,)), from_flat(invs, (C,))
  if not train:
    e = obj((0,)), obj((0,))
  r = (sym(out, x.dtype, x.device), sym(e[0], x.dtype, x.device), sym(e[1], x.dtype, x.device))
  if name == '_batch_norm_with_update':
    return r + (sym(obj((0,)), torch.uint8, x.device),)
  return r
