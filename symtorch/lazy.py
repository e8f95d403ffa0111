"""Torch-function layer: lazy boolean-mask selections and sparse matrices.

`x[mask]` with a symbolic mask has a data-dependent length.  Instead of forking
on it, the selection is kept as Lazy(base, mask); pointwise operations, gathers,
masked assignments and scatters on it are computed at full size.  Anything else
materialises the selection (forking on its length only).
"""
import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from . import ctx as cx
from . import guard as gd
from .guard import B, band, bor, bnot
from .ctx import Unsupported
from .tensor import SymTensor, compact, payload, sym, from_flat, to_real
from . import value as vl


def symbolic_mask(t):
  return isinstance(t, SymTensor) and t.dtype == torch.bool and \
      any(isinstance(x, B) for x in t.p.flat)


def is_tensor(x):
  """a tensor, but not a Lazy (which also answers isinstance(x, torch.Tensor))"""
  return isinstance(x, torch.Tensor) and type(x) is not Lazy


class LazyInt:
  def __init__(self, lz): self.lz = lz
  def _v(self): return self.lz.count()
  def __index__(self): return self._v()
  def __int__(self): return self._v()
  def __eq__(self, o):
    if isinstance(o, LazyInt) and same_mask(self.lz, o.lz): return True
    return self._v() == int(o)
  def __ne__(self, o): return not self == o
  def __lt__(self, o):
    if is_tensor(o) and o.dim(): return o.__gt__(self._v())
    return self._v() < int(o)
  def __le__(self, o):
    if is_tensor(o) and o.dim(): return o.__ge__(self._v())
    return self._v() <= int(o)
  def __gt__(self, o):
    if is_tensor(o) and o.dim(): return o.__lt__(self._v())
    return self._v() > int(o)
  def __ge__(self, o):
    if is_tensor(o) and o.dim(): return o.__le__(self._v())
    return self._v() >= int(o)
  def __add__(self, o): return self._v() + int(o)
  __radd__ = __add__
  def __sub__(self, o): return self._v() - int(o)
  def __rsub__(self, o): return int(o) - self._v()
  def __mul__(self, o): return self._v() * int(o)
  __rmul__ = __mul__
  def __floordiv__(self, o): return self._v() // int(o)
  def __bool__(self): return self._v() != 0
  def __hash__(self): return hash(self._v())
  def __format__(self, f): return format(self._v(), f)
  def __repr__(self): return str(self._v())


class LazySize:
  def __init__(self, lz): self.lz = lz
  def _t(self): return [LazyInt(self.lz)] + list(self.lz.base.shape[1:])
  def __getitem__(self, i):
    return self._t()[i]
  def __iter__(self): return iter(self._t())
  def __len__(self): return self.lz.base.dim()
  def __eq__(self, o): return [x for x in self._t()] == list(o)
  def __add__(self, o): return tuple(self._t()) + tuple(o)
  def numel(self): return self.lz.numel()


class Lazy:
  """rows of `base` (first dim n) where `mask` (list of n guards)"""

  def __init__(self, base, mask):
    self.base = base
    self.mask = mask            # numpy object array (n,), snapshot
    self._mat = None
    self._cnt = None

  # tensor-like attributes
  @property
  def __class__(self): return torch.Tensor
  @property
  def dtype(self): return self.base.dtype
  @property
  def device(self): return self.base.device
  @property
  def shape(self): return LazySize(self)
  @property
  def ndim(self): return self.base.dim()
  @property
  def requires_grad(self): return self.base.requires_grad
  @property
  def is_cuda(self): return False
  @property
  def T(self): return self.mat().T

  def dim(self): return self.base.dim()
  ndimension = dim

  def size(self, d=None):
    if d is None: return LazySize(self)
    return self.shape[d]

  def numel(self):
    n = 1
    for s in self.base.shape[1:]: n *= s
    return LazyInt(self) if n == 1 else LazyInt(self) * n

  def __len__(self): return self.count()

  def count(self):
    if self._cnt is None:
      self._cnt = self.mat().shape[0]
    return self._cnt

  def masktensor(self, like=None):
    m = sym(self.mask.copy(), torch.bool)
    if like is not None:
      for _ in range(like.dim() - 1): m = m.unsqueeze(-1)
    return m

  def rows(self):
    return compact(list(self.mask))

  def mat(self):
    if self._mat is None:
      rows = self.rows()
      idx = sym(from_flat([vl.mkU(dict(o)) for o in rows], (len(rows),)), torch.int64)
      self._mat = self.base.index_select(0, idx)
    return self._mat

  def safe(self, fill=0):
    """full-size base with off rows replaced by `fill`"""
    z = torch.zeros((), dtype=self.base.dtype) + fill if fill else \
        torch.zeros((), dtype=self.base.dtype)
    return torch.where(self.masktensor(self.base), self.base, z)

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    f = getattr(torch.Tensor, name)
    if callable(f):
      def method(*a, **k):
        return call(f, (self,) + a, k)
      return method
    return getattr(self.mat(), name)

  def __getitem__(self, i): return call(torch.Tensor.__getitem__, (self, i), {})
  def __setitem__(self, i, v): return call(torch.Tensor.__setitem__, (self, i, v), {})
  def __iter__(self): return iter(self.mat())
  def __bool__(self): return bool(self.mat())
  def __int__(self): return int(self.mat())
  def __index__(self): return self.mat().__index__()
  def __repr__(self): return 'Lazy(%s)' % (tuple(self.base.shape),)

  @classmethod
  def __torch_function__(cls, func, types, args=(), kwargs=None):
    return call(func, args, kwargs or {})


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv',
           'rfloordiv', 'mod', 'and', 'rand', 'or', 'ror', 'xor', 'rxor', 'lshift', 'rshift',
           'rlshift', 'rrshift', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'pow', 'rpow', 'matmul',
           'rmatmul', 'neg', 'invert', 'abs',
           'iadd', 'isub', 'imul', 'itruediv', 'iand', 'ior'):
  def _mk(n):
    f = getattr(torch.Tensor, n)
    inp = n in ('__iadd__', '__isub__', '__imul__', '__itruediv__', '__iand__', '__ior__')
    def m(self, *a):
      return call(f, (self,) + a, {})
    return m
  _d = '__%s__' % _n
  if hasattr(torch.Tensor, _d):
    setattr(Lazy, _d, _mk(_d))
Lazy.__hash__ = object.__hash__


def same_mask(a, b):
  if a.mask is b.mask: return True
  return len(a.mask) == len(b.mask) and all(x is y for x, y in zip(a.mask, b.mask))


POINTWISE = set('''add sub mul div true_divide floor_divide remainder fmod neg abs
  __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__
  __floordiv__ __rfloordiv__ __mod__ __and__ __rand__ __or__ __ror__ __xor__ __rxor__
  __lshift__ __rshift__ __rlshift__ __rrshift__ __lt__ __le__ __gt__ __ge__ __eq__ __ne__
  __pow__ __rpow__ __neg__ __invert__ __abs__ rsub
  lt le gt ge eq ne logical_and logical_or logical_not logical_xor bitwise_and bitwise_or
  bitwise_not bitwise_xor bitwise_left_shift bitwise_right_shift
  long int float double half bool short to type type_as clone detach contiguous floor ceil
  trunc round frac sqrt rsqrt reciprocal square exp log tanh sin cos sigmoid pow clamp
  clamp_min clamp_max clip maximum minimum sign zeros_like ones_like full_like empty_like
  where masked_fill isnan isfinite nan_to_num relu rand_like'''.split())

INPLACE_PW = set('''add_ sub_ mul_ div_ neg_ abs_ clamp_ __iadd__ __isub__ __imul__
  __itruediv__ __iand__ __ior__ masked_fill_ fill_ zero_ relu_'''.split())


def tree_lazies(x, out):
  if isinstance(x, Lazy): out.append(x)
  elif isinstance(x, (list, tuple)):
    for y in x: tree_lazies(y, out)
  elif isinstance(x, dict):
    for y in x.values(): tree_lazies(y, out)
  return out


def tree_map_lazy(x, f):
  if isinstance(x, Lazy): return f(x)
  if isinstance(x, LazyInt): return int(x)
  if isinstance(x, LazySize): return tuple(int(v) for v in x)
  if isinstance(x, list): return [tree_map_lazy(y, f) for y in x]
  if isinstance(x, tuple):
    return tuple(tree_map_lazy(y, f) for y in x)
  if isinstance(x, dict): return {k: tree_map_lazy(y, f) for k, y in x.items()}
  if isinstance(x, slice):
    return slice(*[int(v) if isinstance(v, LazyInt) else v for v in (x.start, x.stop, x.step)])
  return x


def has_lazyint(x):
  if isinstance(x, (LazyInt, LazySize)): return True
  if isinstance(x, (list, tuple)): return any(has_lazyint(y) for y in x)
  return False


def materialise_call(func, args, kwargs):
  a = tree_map_lazy(args, lambda z: z.mat())
  k = tree_map_lazy(kwargs, lambda z: z.mat())
  with FnMode():
    return func(*a, **k)


def broadcast_ok(t, nd):
  """non-lazy operand broadcasts over the lazy dimension"""
  if not is_tensor(t): return True
  if t.dim() == nd: return t.shape[0] == 1
  return t.dim() < nd


class LazyStack:
  """torch.stack of lazies along dim 0 (used for sparse indices)"""

  def __init__(self, items): self.items = items
  def long(self): return LazyStack([z.long() for z in self.items])
  def int(self): return LazyStack([z.int() for z in self.items])
  def to(self, *a, **k): return LazyStack([z.to(*a, **k) for z in self.items])
  def __getitem__(self, i): return self.items[i]
  def __iter__(self): return iter(self.items)
  def __len__(self): return len(self.items)
  def contiguous(self): return self
  def detach(self): return self
  def mat(self): return torch.stack([z.mat() for z in self.items], dim=0)

  @classmethod
  def __torch_function__(cls, func, types, args=(), kwargs=None):
    kwargs = kwargs or {}
    if func is torch.sparse_coo_tensor:
      return make_sparse(*args, **kwargs)
    a = [x.mat() if isinstance(x, LazyStack) else x for x in args]
    return func(*a, **kwargs)

  def __getattr__(self, name):
    if name.startswith('__'): raise AttributeError(name)
    return getattr(self.mat(), name)


class SymSparse:
  """A sparse COO matrix kept as (row, col, value, row mask)."""

  def __init__(self, row, col, val, size, mask=None):
    self.row, self.col, self.val, self.mask = row, col, val, mask
    self.shape = torch.Size([int(s) for s in size])
    self.dtype, self.device = val.dtype, val.device

  def coalesce(self): return self
  def is_coalesced(self): return True
  def size(self, d=None): return self.shape if d is None else self.shape[d]
  def t(self): return SymSparse(self.col, self.row, self.val, self.shape[::-1], self.mask)
  def to(self, *a, **k):
    return SymSparse(self.row, self.col, self.val.to(*a, **k), self.shape, self.mask)
  def double(self): return self.to(torch.float64)
  def float(self): return self.to(torch.float32)
  def requires_grad_(self, *a): return self

  def mm(self, dense):
    if isinstance(dense, Lazy): dense = dense.mat()
    if dense.dtype != self.dtype:
      raise RuntimeError('sparse.mm: expected the same dtype, got %s and %s' % (
          self.dtype, dense.dtype))
    if dense.shape[0] != self.shape[1]:
      raise RuntimeError('sparse.mm: size mismatch')
    out = torch.zeros(self.shape[0], dense.shape[1], dtype=dense.dtype)
    if self.row.shape[0] == 0 or dense.shape[0] == 0:
      return out
    g = dense.index_select(0, self.col) * self.val.unsqueeze(1)
    if self.mask is not None:
      m = sym(self.mask.copy(), torch.bool).unsqueeze(1)
      g = torch.where(m, g, torch.zeros((), dtype=g.dtype))
    return out.index_add(0, self.row, g)

  __matmul__ = mm
  matmul = mm

  def to_dense(self):
    return self.mm(torch.eye(self.shape[1], dtype=self.dtype))

  @classmethod
  def __torch_function__(cls, func, types, args=(), kwargs=None):
    name = getattr(func, '__name__', '')
    if name in ('mm', '_sparse_mm', 'matmul', '__matmul__', 'spmm', 'smm', 'hspmm', 'sspmm'):
      return args[0].mm(args[1])
    if name == 'addmm':
      return args[0] + args[1].mm(args[2])
    raise Unsupported('sparse op %s' % name)


def make_sparse(indices, values, size=None, **kw):
  if size is None:
    raise Unsupported('sparse_coo_tensor without a size')
  dt = kw.get('dtype')
  if isinstance(indices, LazyStack):
    row, col = indices.items
    if isinstance(values, Lazy) and same_mask(row, col) and same_mask(row, values):
      v = values.base
      s = SymSparse(row.safe(), col.safe(), v if dt is None else v.to(dt), size, row.mask)
    else:
      v = values.mat() if isinstance(values, Lazy) else values
      s = SymSparse(row.mat(), col.mat(), v if dt is None else v.to(dt), size)
  else:
    if isinstance(indices, Lazy): indices = indices.mat()
    if isinstance(values, Lazy): values = values.mat()
    if not is_tensor(values): values = torch.tensor(values)
    if dt is not None: values = values.to(dt)
    s = SymSparse(indices[0], indices[1], values, size)
  # native bounds check
  from .tensor import index_options
  anybad = False
  for ix, n in ((s.row, s.shape[0]), (s.col, s.shape[1])):
    for i, v in enumerate(payload(ix).reshape(-1)):
      on = True if s.mask is None else s.mask[i]
      if on is False: continue
      if isinstance(v, int) and v == 0 and n > 0: continue
      bad = bor(vl.int_cmp('lt', v, 0), bnot(vl.int_cmp('lt', v, n)))
      anybad = bor(anybad, band(on, bad))
  if anybad is not False and cx.ctx().decide(anybad):
    raise RuntimeError('sparse index out of bounds')
  return s


def as_dim(args, kwargs, pos=1):
  if 'dim' in kwargs: return kwargs['dim']
  if len(args) > pos: return args[pos]
  return None


def call(func, args, kwargs):
  name = getattr(func, '__name__', str(func))
  lz = tree_lazies((args, kwargs), [])
  if not lz and not has_lazyint(args) and not any(has_lazyint(v) for v in kwargs.values()):
    with FnMode():
      return func(*args, **kwargs)
  if not lz:
    return materialise_call(func, args, kwargs)
  z0 = lz[0]
  ok = all(same_mask(z0, z) for z in lz[1:])
  if name == '__get__':
    return func(args[0].mat())

  if name in ('nonzero', 'argwhere') or name == 'where' and len(args) == 1 and not kwargs:
    with FnMode():
      return func(args[0].mat(), **kwargs)

  if name in ('zeros_like', 'ones_like', 'full_like', 'empty_like', 'rand_like'):
    with FnMode():
      return Lazy(func(args[0].base, *args[1:], **kwargs), args[0].mask)

  if name in POINTWISE and ok:
    nd = max(z.dim() for z in lz)
    rest = [a for a in args if is_tensor(a)] + \
        [a for a in kwargs.values() if is_tensor(a)]
    if all(z.dim() == nd for z in lz) and all(broadcast_ok(t, nd) for t in rest):
      a = tree_map_lazy(args, lambda z: z.base)
      k = tree_map_lazy(kwargs, lambda z: z.base)
      return Lazy(_nolazy(func, a, k), z0.mask)
    return materialise_call(func, args, kwargs)

  if name in INPLACE_PW and ok and isinstance(args[0], Lazy):
    nd = args[0].dim()
    rest = [a for a in args[1:] if is_tensor(a)]
    if all(z.dim() == nd for z in lz) and all(broadcast_ok(t, nd) for t in rest):
      a = tree_map_lazy(args[1:], lambda z: z.base)
      base = args[0].base.clone()
      _nolazy(func, (base,) + tuple(a), kwargs)
      args[0].base, args[0]._mat = base, None
      return args[0]
    return materialise_call(func, args, kwargs)

  if name == '__getitem__':
    self, idx = args
    if isinstance(self, Lazy) and not tree_lazies(idx, []):
      if isinstance(idx, tuple) and idx and idx[0] == slice(None) and \
          isinstance(idx[0], slice):
        return Lazy(_nolazy(torch.Tensor.__getitem__, (self.base, idx), {}), self.mask)
      if isinstance(idx, tuple) and idx and idx[0] is Ellipsis and self.dim() > 1 and \
          len(idx) <= self.dim() and not any(is_tensor(i) for i in idx):
        return Lazy(_nolazy(torch.Tensor.__getitem__, (self.base, idx), {}), self.mask)
      if idx is Ellipsis:
        return self
      return materialise_call(func, args, kwargs)
    if isinstance(self, Lazy) and isinstance(idx, Lazy) and idx.dtype == torch.bool and \
        idx.dim() == 1 and same_mask(self, idx):
      m = np.empty(len(self.mask), dtype=object)
      bp = payload(idx.base)
      for i in range(len(m)): m[i] = band(self.mask[i], bp[i])
      return Lazy(self.base, m)
    if isinstance(self, Lazy) and isinstance(idx, Lazy) and idx.dtype == torch.bool and \
        idx.dim() > 1 and same_mask(self, idx) and \
        tuple(idx.base.shape) == tuple(self.base.shape[:idx.dim()]):
      b = self.base.reshape((idx.base.numel(),) + tuple(self.base.shape[idx.dim():])).clone()
      return Lazy(b, flat_mask(idx))
    if is_tensor(self) and isinstance(idx, tuple) and idx and len(idx) <= self.dim() and ok and \
        all(isinstance(i, Lazy) and i.dtype != torch.bool and i.dim() == 1 for i in idx) and \
        self.numel() > 0:
      at = tuple(i.base if constant_index(i, self.shape[d]) else i.safe()
                 for d, i in enumerate(idx))
      return Lazy(_nolazy(torch.Tensor.__getitem__, (self, at), {}), idx[0].mask)
    if is_tensor(self) and isinstance(idx, Lazy) and idx.dtype != torch.bool:
      if self.shape[0] == 0:
        return materialise_call(func, args, kwargs)
      if constant_index(idx, self.shape[0]) == list(range(self.shape[0])):
        return Lazy(self.clone(), idx.mask)
      return Lazy(_nolazy(torch.Tensor.__getitem__, (self, idx.safe()), {}), idx.mask)
    return materialise_call(func, args, kwargs)

  if name in ('index_select', 'take', 'take_along_dim', 'embedding'):
    if name == 'index_select' and is_tensor(args[0]) and len(args) == 3 \
        and args[1] == 0 and isinstance(args[2], Lazy) and args[0].shape[0] > 0:
      if constant_index(args[2], args[0].shape[0]) == list(range(args[0].shape[0])):
        return Lazy(args[0].clone(), args[2].mask)
      return Lazy(_nolazy(func, (args[0], 0, args[2].safe()), {}), args[2].mask)
    return materialise_call(func, args, kwargs)

  if name == '__setitem__':
    self, idx, val = args
    if is_tensor(self) and isinstance(val, Lazy) and \
        is_tensor(idx) and idx.dtype == torch.bool:
      m = payload(idx).reshape(-1)
      if len(m) == len(val.mask) and all(x is y or x == y for x, y in zip_is(m, val.mask)):
        if val.dtype != self.dtype:
          raise RuntimeError('Index put requires the source and destination dtypes match, '
                             'got %s for the destination and %s for the source.' % (
                                 self.dtype, val.dtype))
        rest = tuple(self.shape[idx.dim():])
        if tuple(val.base.shape[1:]) != rest:
          b = val.base
          b = b.expand((b.shape[0],) + rest)
        else:
          b = val.base
        b = b.reshape(tuple(idx.shape) + rest)
        mm = idx.clone()
        for _ in rest: mm = mm.unsqueeze(-1)
        with FnMode():
          self.copy_(torch.where(mm, b, self))
        return None
    if put_rows(self, idx, val):
      return None
    if isinstance(self, Lazy):
      # in-place on a temporary selection
      base = self.base.clone()
      if isinstance(idx, Lazy) and idx.dtype == torch.bool and same_mask(self, idx):
        v = val.base if isinstance(val, Lazy) else val
        if not isinstance(val, Lazy) or same_mask(val, self):
          with FnMode():
            torch.Tensor.__setitem__(base, idx.base, v)
          self.base, self._mat = base, None
          return None
      if isinstance(idx, Lazy) and idx.dtype == torch.bool and isinstance(val, Lazy) and \
          same_mask(self, idx) and tuple(idx.base.shape) == tuple(base.shape[:idx.dim()]) and \
          val.dtype == self.dtype:
        fm = flat_mask(idx)
        if len(fm) == len(val.mask) and all(x is y or x == y for x, y in zip_is(fm, val.mask)):
          rest = tuple(base.shape[idx.dim():])
          if tuple(val.base.shape[1:]) == rest:
            mm = sym(fm.copy(), torch.bool).reshape(tuple(idx.base.shape) + (1,) * len(rest))
            with FnMode():
              base = torch.where(mm, val.base.reshape(base.shape), base)
            self.base, self._mat = base, None
            return None
      if isinstance(idx, tuple) and isinstance(idx[0], slice) and idx[0] == slice(None) and \
          (not isinstance(val, Lazy) or same_mask(val, self)) and not tree_lazies(idx, []):
        v = val.base if isinstance(val, Lazy) else val
        with FnMode():
          torch.Tensor.__setitem__(base, idx, v)
        self.base, self._mat = base, None
        return None
      m = self.mat().clone()
      i2 = tree_map_lazy(idx, lambda z: z.mat())
      v2 = tree_map_lazy(val, lambda z: z.mat())
      with FnMode():
        torch.Tensor.__setitem__(m, i2, v2)
      self.base, self._mat, self._cnt = m, None, None
      self.mask = np.array([True] * m.shape[0], dtype=object)
      return None
    return materialise_call(func, args, kwargs)

  if name in ('index_put_', 'index_put', 'index_copy_', 'index_copy', 'index_fill_', 'index_fill') \
      and is_tensor(args[0]):
    self = args[0] if name.endswith('_') else args[0].clone()
    if name.startswith('index_put') and not kwargs and len(args) <= 4 and \
        put_rows(self, args[1], args[2], bool(len(args) > 3 and args[3])):
      return self
    if not name.startswith('index_put') and len(args) == 4 and args[1] == 0 and \
        put_rows(self, args[2], args[3]):
      return self
    return materialise_call(func, args, kwargs)

  if name in ('scatter_add_', 'scatter_add', 'index_add_', 'index_add', 'scatter_reduce',
              'scatter_reduce_'):
    self = args[0]
    dim = as_dim(args, kwargs)
    index = args[2] if len(args) > 2 else kwargs.get('index')
    src = args[3] if len(args) > 3 else kwargs.get('src', kwargs.get('source'))
    if name.startswith('scatter_add') or name.startswith('index_add'):
      if is_tensor(self) and isinstance(index, Lazy) and isinstance(src, Lazy) \
          and ok and dim == 0 and self.shape[0] > 0 and len(args) <= 4:
        ix = index.safe()
        return _nolazy(func, (self, 0, ix, src.safe()), {})
    return materialise_call(func, args, kwargs)

  if name == 'unsqueeze' and isinstance(args[0], Lazy):
    d = as_dim(args, kwargs)
    if d > 0 or d == -1:
      return Lazy(_nolazy(func, (args[0].base, d), {}), z0.mask)
  if name == 'squeeze' and isinstance(args[0], Lazy) and as_dim(args, kwargs) not in (None, 0):
    d = as_dim(args, kwargs)
    if d > 0 or d > -args[0].dim():
      return Lazy(_nolazy(func, (args[0].base, d), {}), z0.mask)
  if name == 'expand_as' and len(lz) == 2 and ok:
    return Lazy(_nolazy(func, (args[0].base, args[1].base), {}), z0.mask)
  if name == 'repeat' and isinstance(args[0], Lazy):
    r = args[1] if isinstance(args[1], (tuple, list)) else args[1:]
    if len(r) == args[0].dim() and r[0] == 1:
      return Lazy(_nolazy(func, (args[0].base,) + tuple(r), {}), z0.mask)
  if name in ('flatten', 'view', 'reshape', 'ravel') and isinstance(args[0], Lazy) and \
      not kwargs and (len(args) == 1 or tuple(args[1:]) in ((-1,), ((-1,),))) and \
      name in ('flatten', 'ravel', 'view', 'reshape') and \
      all(s == 1 for s in args[0].base.shape[1:]):
    return Lazy(args[0].base.reshape(-1), z0.mask)
  if name == 'flatten' and isinstance(args[0], Lazy):
    st = args[1] if len(args) > 1 else kwargs.get('start_dim', 0)
    if st > 0:
      return Lazy(_nolazy(func, (args[0].base,) + tuple(args[1:]), kwargs), z0.mask)
  if name in ('sum', 'any', 'all', 'prod', 'mean', 'amax', 'amin', 'norm', 'argmax', 'argmin'):
    d = as_dim(args, kwargs)
    nd = args[0].dim()
    if isinstance(d, int) and d % nd != 0 and len(lz) == 1:
      return Lazy(_nolazy(func, (args[0].base,) + tuple(args[1:]), kwargs), z0.mask)
    if d is None and name in ('sum', 'any', 'all') and len(lz) == 1 and len(args) == 1:
      fill = 1 if name == 'all' else 0
      return _nolazy(func, (z0.safe(fill) if name != 'all' else
                            torch.where(z0.masktensor(z0.base), z0.base.bool(),
                                        torch.ones((), dtype=torch.bool)),), kwargs)
  if name in ('normalize', 'softmax', 'log_softmax') and len(lz) == 1:
    d = kwargs.get('dim', 1)
    if d % args[0].dim() != 0:
      return Lazy(_nolazy(func, (args[0].base,) + tuple(args[1:]), kwargs), z0.mask)
  if name == 'linear' and isinstance(args[0], Lazy) and len(lz) == 1:
    return Lazy(_nolazy(func, (args[0].base,) + tuple(args[1:]), kwargs), z0.mask)
  if name in ('mm', 'matmul', '__matmul__') and isinstance(args[0], Lazy) and len(lz) == 1:
    return Lazy(_nolazy(func, (args[0].base,) + tuple(args[1:]), kwargs), z0.mask)
  if name in ('stack', 'cat') and ok and all(isinstance(x, Lazy) for x in args[0]):
    d = args[1] if len(args) > 1 else kwargs.get('dim', 0)
    nd = z0.dim() + (1 if name == 'stack' else 0)
    if d % nd != 0:
      return Lazy(_nolazy(func, ([x.base for x in args[0]], d), {}), z0.mask)
    if name == 'stack' and z0.dim() == 1:
      return LazyStack(list(args[0]))
  if func is torch.sparse_coo_tensor:
    return make_sparse(*args, **kwargs)
  if name in ('data', 'requires_grad_', 'item', 'tolist'):
    return materialise_call(func, args, kwargs)
  return materialise_call(func, args, kwargs)


def lazy_nonzero(m):
  """nonzero of a symbolic mask: its constant table of coordinates, selected by it"""
  c = np.stack(np.unravel_index(np.arange(m.numel()), tuple(m.shape)), axis=1)
  t = from_flat([int(v) for v in c.reshape(-1)], c.shape)
  return Lazy(sym(t, torch.int64), payload(m).reshape(-1).copy())


def constant_index(z, n):
  """the row numbers of a lazy index whose table is concrete, distinct and in range"""
  if not isinstance(z, Lazy) or z.dtype == torch.bool or z.dim() != 1: return None
  p = payload(z.base).reshape(-1)
  if not all(isinstance(v, int) and -n <= v < n for v in p): return None
  return [int(v) % n for v in p]


def put_rows(self, idx, val, accumulate=False):
  """self[idx] = val for lazy indices over one mask with concrete, distinct positions;
  returns False when the case is another one"""
  idx = idx if isinstance(idx, (tuple, list)) else (idx,)
  if not is_tensor(self) or len(idx) > self.dim() or not idx: return False
  cols = [constant_index(z, self.shape[i]) for i, z in enumerate(idx)]
  if any(c is None for c in cols) or not all(same_mask(idx[0], z) for z in idx): return False
  rows = list(zip(*cols))
  if len(set(rows)) != len(rows): return False
  rest = tuple(self.shape[len(idx):])
  if isinstance(val, Lazy):
    if not same_mask(val, idx[0]) or tuple(val.base.shape[1:]) != rest: return False
    v = val.base
  elif is_tensor(val):
    if val.dim() > len(rest) and val.shape[0] != 1: return False
    v = val
  else:
    v = torch.full((), val, dtype=self.dtype)
  if v.dtype != self.dtype:
    if is_tensor(val) and val.dim() == 0 or not is_tensor(val) and not isinstance(val, Lazy):
      v = v.to(self.dtype)
    else:
      raise RuntimeError('Index put requires the source and destination dtypes match, got %s '
                         'for the destination and %s for the source.' % (self.dtype, v.dtype))
  at = tuple(torch.tensor(c, dtype=torch.int64) for c in cols)
  with FnMode():
    cur = self[at]
    m = sym(idx[0].mask.copy(), torch.bool)
    for _ in rest: m = m.unsqueeze(-1)
    self[at] = torch.where(m, cur + v if accumulate else v, cur)
  return True


def flat_mask(idx):
  """row mask of a lazy selection combined with its Boolean values, flattened"""
  bp = payload(idx.base)
  m = np.empty(bp.size, dtype=object)
  w = bp.size // max(len(idx.mask), 1)
  for i, v in enumerate(bp.reshape(-1)):
    m[i] = band(idx.mask[i // w], v)
  return m


def zip_is(a, b):
  return list(zip(a, b))


def _nolazy(func, args, kwargs):
  with FnMode():
    return func(*args, **kwargs)


def masked_assign(self, idx, val):
  """self[mask] = val with a symbolic mask (no Lazy value)"""
  rest = tuple(self.shape[idx.dim():])
  mm = idx.clone()
  for _ in rest: mm = mm.unsqueeze(-1)
  if not is_tensor(val):
    with FnMode():
      self.masked_fill_(mm, val)
    return
  if val.dim() == 0 or val.numel() == 1 and val.dim() <= len(rest) + 1:
    if val.dtype != self.dtype and val.dim() > 0:
      raise RuntimeError('Index put requires the source and destination dtypes match')
    v = val.reshape(()).to(self.dtype)
    with FnMode():
      self.copy_(torch.where(mm, v, self))
    return
  if val.dtype != self.dtype:
    raise RuntimeError('Index put requires the source and destination dtypes match, got %s '
                       'for the destination and %s for the source.' % (self.dtype, val.dtype))
  if val.dim() <= len(rest) or val.shape[0] == 1:
    v = val.reshape(val.shape[1:]) if val.dim() == len(rest) + 1 else val
    with FnMode():
      self.copy_(torch.where(mm, v, self))
    return
  # dense rows: row r of val goes to the r-th true position
  mask = list(payload(idx).reshape(-1))
  n = val.shape[0]
  cnt = {0: True}
  ranks = []
  for m in mask:
    ranks.append(cnt)
    new = {}
    for k, g in cnt.items():
      for kk, gg in ((k, band(g, bnot(m))), (k + 1, band(g, m))):
        if gg is not False: new[kk] = bor(new.get(kk, False), gg)
    cnt = new
  good = cnt.get(n, False)
  if good is not True and not cx.ctx().decide(good):
    raise RuntimeError('shape mismatch: value tensor of shape %s cannot be broadcast to '
                       'indexing result' % list(val.shape))
  if n == 0:
    return
  idxs = []
  for i, r in enumerate(ranks):
    o = {}
    for k, g in r.items():
      if k < n:
        g = band(g, mask[i])
        if g is not False: o[k] = g
    rest_g = bnot(gd.bany(o.values()))
    if rest_g is not False: o[0] = bor(o.get(0, False), rest_g)
    idxs.append(vl.mkU(o))
  ix = sym(from_flat(idxs, (len(mask),)), torch.int64)
  v = val.index_select(0, ix).reshape(tuple(idx.shape) + tuple(val.shape[1:]))
  with FnMode():
    self.copy_(torch.where(mm, v, self))


class FnMode(TorchFunctionMode):

  def __init__(self, passthru=None):
    super().__init__()
    self.passthru = passthru

  def __torch_function__(self, func, types, args=(), kwargs=None):
    kwargs = kwargs or {}
    name = getattr(func, '__name__', '')
    if func is self.passthru:
      self.passthru = None
      return func(*args, **kwargs)
    if name in ('grad', 'backward') and func is not torch.Tensor.grad.__get__:
      with FnMode(passthru=func):
        return func(*args, **kwargs)
    if name == '__getitem__' and len(args) == 2 and is_tensor(args[0]):
      idx = args[1]
      if isinstance(idx, (list,)) and len(idx) == 1 and symbolic_mask(idx[0]):
        idx = idx[0]
      if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
      if is_tensor(idx) and symbolic_mask(idx):
        t = args[0]
        nd = idx.dim()
        if tuple(t.shape[:nd]) != tuple(idx.shape):
          raise IndexError('The shape of the mask %s does not match the shape of the indexed '
                           'tensor %s' % (list(idx.shape), list(t.shape)))
        base = t.reshape((idx.numel(),) + tuple(t.shape[nd:])) if nd != 1 else t
        if t.requires_grad and torch.is_grad_enabled():
          # differentiable: gather the selected rows (forks on their number only)
          pos = Lazy(sym(from_flat(list(range(idx.numel())), (idx.numel(),)), torch.int64),
                     payload(idx).reshape(-1).copy()).mat()
          return base.index_select(0, pos)
        # snapshot: boolean indexing copies
        base = base.clone()
        return Lazy(base, payload(idx).reshape(-1).copy())
    if name == '__setitem__' and len(args) == 3 and is_tensor(args[0]):
      idx, val = args[1], args[2]
      if isinstance(idx, tuple) and len(idx) == 1: idx = idx[0]
      if is_tensor(idx) and symbolic_mask(idx) and not isinstance(val, Lazy):
        nd = idx.dim()
        if tuple(args[0].shape[:nd]) != tuple(idx.shape):
          raise IndexError('The shape of the mask does not match the indexed tensor')
        if not isinstance(args[0], SymTensor):
          raise Unsupported('symbolic assignment into a plain tensor')
        return masked_assign(args[0], idx, val)
    if func is torch.sparse_coo_tensor:
      return make_sparse(*args, **kwargs)
    if name in ('_sparse_mm',):
      return args[0].mm(args[1])
    if name == 'tolist' and args and isinstance(args[0], SymTensor):
      def rec(p):
        if p.ndim == 0:
          return sym(p, args[0].dtype).item()
        return [rec(p[i:i + 1].reshape(p.shape[1:])) for i in range(p.shape[0])]
      return rec(args[0].p)
    if name in ('numpy', '__array__') and args and isinstance(args[0], SymTensor):
      return SymNd(args[0])
    if name == 'nonzero' or name == 'argwhere' or \
        name == 'where' and len(args) == 1 and not kwargs:
      x = args[0] if args else kwargs['input']
      r = None
      if is_tensor(x) and x.dim() >= 1 and x.numel() > 0:
        m = x
        if isinstance(x, SymTensor) and x.dtype != torch.bool:
          m = x != 0
        if symbolic_mask(m):
          r = lazy_nonzero(m)
      if r is None:
        x = x.mat() if isinstance(x, Lazy) else x
        r = torch.ops.aten.nonzero(x)
      if name == 'where' or kwargs.get('as_tuple'):
        return tuple(r[:, i] for i in range(x.dim()))
      return r
    if tree_lazies((args, kwargs), []) or has_lazyint(args) or \
        any(has_lazyint(v) for v in kwargs.values()):
      return call(func, args, kwargs)
    return func(*args, **kwargs)


class SymNd:
  """stand-in for a numpy array whose content is symbolic"""

  def __array_ufunc__(self, uf, method, *args, out=None, **kw):
    f = UFUNC.get(uf.__name__)
    if f is None or method not in ('__call__', 'reduce') or set(kw) - {'axis', 'keepdims', 'dtype', 'where', 'casting'}:
      return NotImplemented
    if method == 'reduce':
      g = {'add': torch.sum, 'minimum': torch.amin, 'maximum': torch.amax, 'multiply': None}.get(uf.__name__)
      if g is None: return NotImplemented
      r = nd_red(g, args[0].t, kw.get('axis', 0), kw.get('keepdims', False))
    else:
      r = f(*nd_both(args))
      if kw.get('dtype') is not None: r = r.to(getattr(torch, np.dtype(kw['dtype']).name))
    if out is not None:
      if not isinstance(out[0], SymNd): return NotImplemented
      out[0].t[...] = r
      return out[0]
    return SymNd(r)

  def __array_function__(self, func, types, args, kw):
    f = NDFUNC.get(func.__name__)
    if f is None: return NotImplemented
    return f(*args, **kw)

  def __init__(self, t):
    self.t = t

  shape = property(lambda s: tuple(s.t.shape))
  ndim = property(lambda s: s.t.dim())
  size = property(lambda s: s.t.numel())
  T = property(lambda s: SymNd(s.t.t()))

  @property
  def dtype(self):
    return np.dtype(str(self.t.dtype).split('.')[-1])

  def astype(self, dt, copy=True):
    return SymNd(self.t.to(getattr(torch, np.dtype(dt).name)))

  def copy(self): return SymNd(self.t.clone())
  def reshape(self, *s, order='C'): return SymNd(self.t.reshape(*s))
  def ravel(self, order='C'): return SymNd(self.t.reshape(-1))
  def flatten(self, order='C'): return SymNd(self.t.reshape(-1).clone())
  def transpose(self, *ax): return SymNd(self.t.permute(*(ax or range(self.ndim)[::-1])))
  def squeeze(self, axis=None): return SymNd(self.t.squeeze() if axis is None else self.t.squeeze(axis))
  def take(self, i, axis=None):
    t = self.t.reshape(-1) if axis is None else self.t
    ax = (axis or 0) % t.dim()
    return SymNd(t[(slice(None),) * ax + (nd_index(np.asarray(i) if isinstance(i, (list, tuple)) else i),)])
  def all(self, axis=None): return SymNd(self.t.all() if axis is None else self.t.all(axis))
  def any(self, axis=None): return SymNd(self.t.any() if axis is None else self.t.any(axis))
  def __iter__(self): return (self[i] for i in range(len(self)))
  def __len__(self): return self.shape[0]
  def __getitem__(self, i): return SymNd(self.t[nd_index(i)])
  def __setitem__(self, i, v): self.t[nd_index(i)] = nd_arg(v, self.t)

  def min(self, axis=None, out=None, keepdims=False): return SymNd(nd_red(torch.amin, self.t, axis, keepdims))
  def max(self, axis=None, out=None, keepdims=False): return SymNd(nd_red(torch.amax, self.t, axis, keepdims))
  def sum(self, axis=None, dtype=None, out=None, keepdims=False): return SymNd(nd_red(torch.sum, self.t, axis, keepdims))
  def mean(self, axis=None, dtype=None, out=None, keepdims=False): return SymNd(nd_red(torch.mean, self.t, axis, keepdims))
  def clip(self, min=None, max=None, out=None): return SymNd(torch.clamp(self.t, min, max))


def nd_both(args):
  ts = [a.t for a in args if isinstance(a, SymNd)]
  out = []
  for a in args:
    a = nd_arg(a, ts[0])
    if not is_tensor(a): a = torch.as_tensor(a, dtype=ts[0].dtype if ts[0].dtype.is_floating_point or isinstance(a, int) else None)
    out.append(a)
  return out


def _nd_cat(f):
  return lambda xs, axis=0, **k: SymNd(f([x if is_tensor(x) else torch.as_tensor(x) for x in (nd_arg(x, None) for x in xs)], dim=axis))


_red = lambda m: lambda a, axis=None, out=None, keepdims=False, **k: getattr(a, m)(axis=axis, keepdims=bool(keepdims is True))
NDFUNC = {'min': _red('min'), 'amin': _red('min'), 'max': _red('max'), 'amax': _red('max'), 'sum': _red('sum'), 'mean': _red('mean'),
          'ptp': lambda a, axis=None, **k: a.max(axis=axis) - a.min(axis=axis),
          'take': lambda a, i, axis=None, **k: a.take(i, axis),
          'clip': lambda a, a_min=None, a_max=None, **k: a.clip(a_min, a_max),
          'concatenate': _nd_cat(torch.cat), 'stack': _nd_cat(torch.stack),
          'where': lambda c, a, b: SymNd(torch.where(nd_arg(c, None), *nd_both([a, b]))),
          'expand_dims': lambda a, axis: SymNd(a.t.unsqueeze(axis)), 'squeeze': lambda a, axis=None: a.squeeze(axis),
          'reshape': lambda a, shape=None, newshape=None, **k: a.reshape(shape if shape is not None else newshape),
          'transpose': lambda a, axes=None: a.transpose(*(axes or ())), 'ravel': lambda a, **k: a.ravel(), 'copy': lambda a, **k: a.copy(),
          'zeros_like': lambda a, dtype=None, **k: SymNd(torch.zeros_like(a.t)), 'ones_like': lambda a, dtype=None, **k: SymNd(torch.ones_like(a.t)),
          'shape': lambda a: a.shape, 'ndim': lambda a: a.ndim, 'all': lambda a, axis=None, **k: a.all(axis), 'any': lambda a, axis=None, **k: a.any(axis)}
UFUNC = {'add': torch.add, 'subtract': torch.sub, 'multiply': torch.mul, 'divide': torch.true_divide, 'true_divide': torch.true_divide,
         'floor_divide': torch.floor_divide, 'bitwise_and': torch.bitwise_and, 'bitwise_or': torch.bitwise_or,
         'logical_and': torch.logical_and, 'logical_or': torch.logical_or, 'logical_not': torch.logical_not, 'invert': torch.bitwise_not,
         'right_shift': torch.bitwise_right_shift, 'left_shift': torch.bitwise_left_shift, 'remainder': torch.remainder,
         'minimum': torch.minimum, 'maximum': torch.maximum, 'negative': torch.neg, 'positive': lambda t: t, 'absolute': torch.abs, 'square': torch.square,
         'less': torch.lt, 'less_equal': torch.le, 'greater': torch.gt, 'greater_equal': torch.ge, 'equal': torch.eq, 'not_equal': torch.ne,
         'sqrt': torch.sqrt, 'floor': torch.floor}


def nd_arg(v, t):
  if isinstance(v, SymNd): return v.t
  if isinstance(v, np.ndarray): return torch.from_numpy(v)
  if isinstance(v, np.generic): return v.item()
  return v


def nd_index(i):
  if isinstance(i, tuple): return tuple(nd_index(j) for j in i)
  return nd_arg(i, None)


def nd_red(f, t, axis, keep):
  if axis is None: axis = tuple(range(t.dim()))
  return f(t, dim=axis, keepdim=bool(keep)) if t.dim() else t


def _nd_ops():
  import operator as o
  for n, f in (('add', o.add), ('sub', o.sub), ('mul', o.mul), ('truediv', o.truediv), ('floordiv', o.floordiv),
               ('and', o.and_), ('or', o.or_), ('rshift', o.rshift), ('lshift', o.lshift), ('mod', o.mod)):
    setattr(SymNd, '__%s__' % n, lambda s, v, f=f: SymNd(f(s.t, nd_arg(v, s.t))))
    def r(s, v, f=f):
      v = nd_arg(v, s.t)
      if not is_tensor(v): v = torch.as_tensor(v, dtype=s.t.dtype if s.t.dtype.is_floating_point else None)
      return SymNd(f(v, s.t))
    setattr(SymNd, '__r%s__' % n, r)
    def i(s, v, f=f):
      s.t[...] = f(s.t, nd_arg(v, s.t))
      return s
    setattr(SymNd, '__i%s__' % n, i)
  for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(SymNd, '__%s__' % n, lambda s, v, f=getattr(o, n): SymNd(f(s.t, nd_arg(v, s.t))))
  SymNd.__neg__ = lambda s: SymNd(-s.t)
  SymNd.__hash__ = None


_nd_ops()
