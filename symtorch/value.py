"""Symbolic scalars.

bool  : bool | guard B
int   : int | U (finite union {const: guard}) | z3 64-bit bit-vector
float : int/Fraction | F (guarded polynomial over atoms) | python inf/nan
Floats are exact reals; an F may carry guarded special values (-inf, inf, nan).
"""
import math
import zlib
from fractions import Fraction
import z3
from . import ctx as cx
from . import guard as gd
from .ctx import Unsupported
from .guard import B, G, band, bor, bnot, bite, bany, ball, biff, toz3

INF, NINF, NAN = float('inf'), float('-inf'), float('nan')
BVW = 64


# ---------------------------------------------------------------- integers --
class U:
  """Finite union of integer constants with exclusive, exhaustive guards."""
  __slots__ = ('d',)

  def __init__(self, d):
    self.d = d

  def __repr__(self):
    return 'U{%s}' % ','.join(map(str, sorted(self.d)))

  def __add__(s, o): return num_add(s, o)
  def __radd__(s, o): return num_add(o, s)
  def __sub__(s, o): return num_sub(s, o)
  def __rsub__(s, o): return num_sub(o, s)
  def __mul__(s, o): return num_mul(s, o)
  def __rmul__(s, o): return num_mul(o, s)
  def __neg__(s): return num_sub(0, s)
  def __lt__(s, o): return num_cmp('lt', s, o)
  def __le__(s, o): return num_cmp('le', s, o)
  def __gt__(s, o): return num_cmp('lt', o, s)
  def __ge__(s, o): return num_cmp('le', o, s)
  def __eq__(s, o): return num_cmp('eq', s, o)
  def __ne__(s, o): return bnot(num_cmp('eq', s, o))
  __hash__ = object.__hash__
  def __bool__(self): raise TypeError('symbolic int used as bool')
  def __index__(self): raise TypeError('symbolic int used as index')


def mkU(d):
  d = {k: g for k, g in d.items() if g is not False}
  if len(d) == 1:
    return next(iter(d))
  if not d:
    raise cx.PathInfeasible()
  return U(d)


def is_bv(x):
  return isinstance(x, z3.BitVecRef)


def is_symint(x):
  return isinstance(x, (U, z3.BitVecRef))


def to_bv(x):
  if is_bv(x):
    return x
  if isinstance(x, U):
    items = list(x.d.items())
    e = z3.BitVecVal(items[-1][0], BVW)
    for k, g in items[-2::-1]:
      e = z3.If(toz3(g), z3.BitVecVal(k, BVW), e)
    return e
  if isinstance(x, B):
    return z3.If(toz3(x), z3.BitVecVal(1, BVW), z3.BitVecVal(0, BVW))
  return z3.BitVecVal(int(x), BVW)


def norm_bv(e):
  e = z3.simplify(e)
  if z3.is_bv_value(e):
    return e.as_signed_long()
  return e


def bool2int(b):
  if isinstance(b, B):
    return mkU({1: b, 0: bnot(b)})
  return int(b)


MAXU = 4096


def _umap2(f, a, b):
  ad = a.d if isinstance(a, U) else {a: True}
  bd = b.d if isinstance(b, U) else {b: True}
  if len(ad) * len(bd) > 200000:
    raise Unsupported('union blow-up %d x %d' % (len(ad), len(bd)))
  out = {}
  for x, g in ad.items():
    for y, h in bd.items():
      gh = band(g, h)
      if gh is False:
        continue
      v = f(x, y)
      p = out.get(v)
      out[v] = gh if p is None else bor(p, gh)
  return mkU(out)


def int_map(f, a):
  if isinstance(a, U):
    out = {}
    for x, g in a.d.items():
      v = f(x)
      p = out.get(v)
      out[v] = g if p is None else bor(p, g)
    return mkU(out)
  return f(a)


def _trunc_div(x, y):
  q = abs(x) // abs(y)
  return q if (x >= 0) == (y >= 0) else -q


_PYI = {
    'add': lambda x, y: x + y, 'sub': lambda x, y: x - y,
    'mul': lambda x, y: x * y,
    'and': lambda x, y: x & y, 'or': lambda x, y: x | y,
    'xor': lambda x, y: x ^ y,
    'shl': lambda x, y: x << y, 'shr': lambda x, y: x >> y,
    'floordiv': lambda x, y: x // y, 'mod': lambda x, y: x % y,
    'truncdiv': _trunc_div, 'fmod': lambda x, y: x - y * _trunc_div(x, y),
    'min': min, 'max': max,
}


def _is_pow2(n):
  return n > 0 and n & (n - 1) == 0


# upper bounds (exclusive, powers of two) of the symbolic 64-bit inputs, by name
BV_BITS = {}
_ones_cache = {}
_FULL = (1 << BVW) - 1


def set_bits(name, mask):
  """the input of this name has only bits of the mask (from its assumed range)"""
  if BV_BITS.get(name) != mask:
    BV_BITS[name] = mask
    _ones_cache.clear()


def may_ones(e):
  """mask of the bits of a bit-vector term that can be one (a sound over-approximation)"""
  k = e.get_id()
  r = _ones_cache.get(k)
  if r is None or not r[0].eq(e):
    if len(_ones_cache) > 200000: _ones_cache.clear()
    r = _ones_cache[k] = (e, _may_ones(e))
  return r[1]


def _may_ones(e):
  w = e.size()
  full = (1 << w) - 1
  if z3.is_bv_value(e): return e.as_long()
  o = e.decl().kind()
  ch = e.children()
  if o == z3.Z3_OP_UNINTERPRETED and not ch:
    return full & BV_BITS.get(e.decl().name(), full)
  if o == z3.Z3_OP_BAND:
    r = full
    for c in ch: r &= may_ones(c)
    return r
  if o in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
    r = 0
    for c in ch: r |= may_ones(c)
    return r
  if o == z3.Z3_OP_ITE:
    return may_ones(ch[1]) | may_ones(ch[2])
  if o == z3.Z3_OP_CONCAT:
    r = 0
    for c in ch: r = r << c.size() | may_ones(c)
    return r
  if o == z3.Z3_OP_EXTRACT:
    hi, lo = e.params()
    return (may_ones(ch[0]) >> lo) & ((1 << (hi - lo + 1)) - 1)
  if o == z3.Z3_OP_ZERO_EXT: return may_ones(ch[0])
  if o in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(ch[1]):
    n, m = ch[1].as_long(), may_ones(ch[0])
    if n >= w: return full if o == z3.Z3_OP_BASHR else 0
    if o == z3.Z3_OP_BSHL: return (m << n) & full
    if o == z3.Z3_OP_BASHR and m >> (w - 1): return full
    return m >> n
  if o == z3.Z3_OP_BADD:
    n = sum(may_ones(c) for c in ch)          # the largest value the sum can have
    return full if n > full else (1 << n.bit_length()) - 1
  if o == z3.Z3_OP_BMUL:
    n = 1
    for c in ch: n *= may_ones(c)
    return full if n > full else (1 << n.bit_length()) - 1
  return full


def _bvop(op, x, y):
  a, b = to_bv(x), to_bv(y)
  if op == 'add': return a | b if not may_ones(a) & may_ones(b) else a + b
  if op == 'sub': return a - b
  if op == 'mul':
    for u, v in ((a, b), (b, a)):
      if z3.is_bv_value(v) and _is_pow2(v.as_signed_long()):
        return u << (v.as_long().bit_length() - 1)
    return a * b
  if op == 'and': return a & b
  if op == 'or': return a | b
  if op == 'xor': return a ^ b
  if op == 'shl': return a << b
  if op == 'shr': return a >> b
  if op == 'min': return z3.If(a <= b, a, b)
  if op == 'max': return z3.If(a <= b, b, a)
  if op == 'floordiv' and isinstance(y, int) and _is_pow2(y):
    return a >> (y.bit_length() - 1)
  if op == 'mod' and isinstance(y, int) and _is_pow2(y):
    return a & (y - 1)
  if op == 'truncdiv' and isinstance(y, int) and _is_pow2(y) and not may_ones(a) >> (BVW - 1):
    return a >> (y.bit_length() - 1)
  if op == 'fmod' and isinstance(y, int) and _is_pow2(y) and not may_ones(a) >> (BVW - 1):
    return a & (y - 1)
  if op == 'truncdiv' and isinstance(y, int) and y > 0:
    return a / b          # signed bvsdiv truncates
  if op == 'fmod' and isinstance(y, int) and y > 0:
    return z3.SRem(a, b)
  if op == 'floordiv' and isinstance(y, int) and y > 0:
    q = a / b
    return z3.If(z3.And(a < 0, q * b != a), q - 1, q)
  if op == 'mod' and isinstance(y, int) and y > 0:
    return a % b          # z3 % on bitvectors is smod
  raise Unsupported('bv op %s' % op)


def int_bin(op, a, b):
  """Mathematical result; callers wrap to the tensor dtype."""
  if isinstance(a, B): a = bool2int(a)
  if isinstance(b, B): b = bool2int(b)
  if is_bv(a) or is_bv(b):
    return norm_bv(_bvop(op, a, b))
  f = _PYI[op]
  if isinstance(a, U) or isinstance(b, U):
    if op in ('floordiv', 'mod', 'truncdiv', 'fmod'):
      bd = b.d if isinstance(b, U) else {b: True}
      if 0 in bd:
        raise ZeroDivisionError('integer division by zero')
    return _umap2(f, a, b)
  return f(int(a), int(b))


def int_cmp(op, a, b):
  if isinstance(a, B): a = bool2int(a)
  if isinstance(b, B): b = bool2int(b)
  if is_bv(a) or is_bv(b):
    x, y = to_bv(a), to_bv(b)
    e = x < y if op == 'lt' else x <= y if op == 'le' else x == y
    return gd.zatom(e)
  if isinstance(a, U) or isinstance(b, U):
    ad = a.d if isinstance(a, U) else {a: True}
    bd = b.d if isinstance(b, U) else {b: True}
    if op == 'eq':
      if len(ad) > len(bd):
        ad, bd = bd, ad
      r = False
      for x, g in ad.items():
        h = bd.get(x)
        if h is not None:
          r = bor(r, band(g, h))
      return r
    r = False
    for x, g in ad.items():
      h = False
      for y, hy in bd.items():
        if (x < y) if op == 'lt' else (x <= y):
          h = bor(h, hy)
      r = bor(r, band(g, h))
    return r
  return a < b if op == 'lt' else a <= b if op == 'le' else a == b


def int_ite(c, a, b):
  if c is True: return a
  if c is False: return b
  if isinstance(a, B): a = bool2int(a)
  if isinstance(b, B): b = bool2int(b)
  if is_bv(a) or is_bv(b):
    return norm_bv(z3.If(toz3(c), to_bv(a), to_bv(b)))
  if not isinstance(a, U) and not isinstance(b, U) and a == b:
    return a
  nc = bnot(c)
  out = {}
  for d, g in ((a.d if isinstance(a, U) else {a: True}, c),
               (b.d if isinstance(b, U) else {b: True}, nc)):
    for k, h in d.items():
      gh = band(h, g)
      if gh is False: continue
      p = out.get(k)
      out[k] = gh if p is None else bor(p, gh)
  return mkU(out)


def options_of(x, lo=None, hi=None):
  """[(const, guard)] of an integer; bit-vectors are enumerated in [lo, hi)."""
  if isinstance(x, B):
    x = bool2int(x)
  if isinstance(x, U):
    return list(x.d.items())
  if is_bv(x):
    if lo is not None and hi - lo <= 4096:
      out = []
      for v in range(lo, hi):
        g = gd.zatom(x == v)
        if g is not False:
          out.append((v, g))
      return out
    # model enumeration
    c = cx.ctx()
    out = []
    c.solver.push()
    try:
      while True:
        r = c.check()
        if r == z3.unknown:
          raise Unsupported('cannot enumerate bit-vector')
        if r == z3.unsat:
          break
        v = c.solver.model().eval(x, model_completion=True).as_signed_long()
        out.append(v)
        c.solver.add(x != v)
        if len(out) > 512:
          raise Unsupported('too many values for bit-vector')
    finally:
      c.solver.pop()
    return [(v, gd.zatom(x == v)) for v in sorted(out)]
  return [(int(x), True)]


def concretize_int(x):
  if is_symint(x) or isinstance(x, B):
    return cx.ctx().choose(options_of(x))
  return int(x)


# ------------------------------------------------------------------ floats --
class Atom:
  __slots__ = ('id', 'name', 'kind', 'z', 'lo', 'hi', 'lo_open', 'hi_open',
               'bv', 'fn', 'args', 'square', 'axioms', 'lo_val')


def _atoms():
  c = cx.ctx()
  t = c.flags.get('atoms')
  if t is None:
    t = c.flags['atoms'] = {'list': [], 'byname': {}, 'fn': {}}
  return t


def new_atom(name, kind, lo=None, hi=None, bv=None):
  t = _atoms()
  a = t['byname'].get(name)
  if a is not None:
    return a
  a = Atom()
  a.id, a.name, a.kind = len(t['list']), name, kind
  a.z = z3.Real(name) if kind != 'int' else None
  a.lo, a.hi, a.bv = lo, hi, bv
  a.fn, a.args, a.square, a.axioms = None, None, None, None
  t['list'].append(a)
  t['byname'][name] = a
  return a


def atom_by_id(i):
  return _atoms()['list'][i]


class F:
  """Sum over monomials of (sum over guards of coef*[guard]) * monomial."""
  __slots__ = ('terms', 'sp', 'part', 'lb', 'neg')

  def __init__(self, terms, sp=None, part=None):
    self.neg = False    # known to be <= 0
    self.terms = terms
    self.sp = sp or {}
    self.part = part
    self.lb = None      # a known lower bound of the value

  def __repr__(self):
    names = _atoms()['list']
    out = []
    for m, cs in list(self.terms.items())[:6]:
      out.append('%s*%s' % (list(cs.values())[:3],
                            '*'.join(names[i].name for i in m) or '1'))
    return 'F(%s%s)' % (' + '.join(out), ' sp' if self.sp else '')

  def __add__(s, o): return num_add(s, o)
  def __radd__(s, o): return num_add(o, s)
  def __sub__(s, o): return num_sub(s, o)
  def __rsub__(s, o): return num_sub(o, s)
  def __mul__(s, o): return num_mul(s, o)
  def __rmul__(s, o): return num_mul(o, s)
  def __truediv__(s, o): return fdiv(s, o)
  def __rtruediv__(s, o): return fdiv(o, s)
  def __neg__(s): return fneg(s)
  def __lt__(s, o): return num_cmp('lt', s, o)
  def __le__(s, o): return num_cmp('le', s, o)
  def __gt__(s, o): return num_cmp('lt', o, s)
  def __ge__(s, o): return num_cmp('le', o, s)
  def __eq__(s, o): return num_cmp('eq', s, o)
  def __ne__(s, o): return bnot(num_cmp('eq', s, o))
  __hash__ = object.__hash__
  def __bool__(self): raise TypeError('symbolic float used as bool')


def real_atom(name, lo=None, hi=None):
  a = new_atom(name, 'real', lo, hi)
  return F({(a.id,): {True: 1}})


def int_atom(name, bv, lo=None, hi=None):
  """A float whose value is the integer bit-vector bv."""
  a = new_atom(name, 'int', lo, hi, bv)
  return F({(a.id,): {True: 1}})


def lbound(x):
  """known lower bound or None"""
  if isnum(x): return x
  if isinstance(x, F):
    if x.lb is not None: return x.lb
    if x.sp: return None
    if len(x.terms) == 1:
      (m, cs), = x.terms.items()
      if m == ():
        lo = min(v for v, _ in x.part) if x.part else \
            sum(k if g is True else min(k, 0) for g, k in cs.items())
        return lo
      if len(m) == 1:
        lo = atom_by_id(m[0]).lo
        if lo is None: return None
        if len(cs) == 1 and True in cs:
          return lo * cs[True] if cs[True] > 0 else None
        if lo >= 0 and all(k >= 0 for k in cs.values()): return 0
    return None
  if isinstance(x, U): return min(x.d)
  if isinstance(x, B): return 0
  return None


def fsign(x):
  """1: known to be >= 0, -1: known to be <= 0, None: unknown"""
  if isnum(x): return 1 if x >= 0 else -1
  if isinstance(x, F):
    if x.sp: return None
    if x.neg: return -1
    l = lbound(x)
    if l is not None and l >= 0: return 1
    if len(x.terms) <= 3:
      b = simple_bounds(x)
      if b is not None:
        if b[0] >= 0: return 1
        if b[2] <= 0: return -1
    return None
  if isinstance(x, U):
    return 1 if min(x.d) >= 0 else -1 if max(x.d) <= 0 else None
  return None


def with_lb(r, lb):
  if lb is not None and isinstance(r, F) and not r.sp and (r.lb is None or r.lb < lb):
    r.lb = lb
  return r


def cnum(x):
  """python/numpy number -> int | Fraction | special float"""
  if isinstance(x, (int, Fraction)):
    return int(x) if isinstance(x, bool) else x
  x = float(x)
  if x != x or x in (INF, NINF):
    return x
  if x == int(x):
    return int(x)
  return Fraction(x)


def isnum(x):
  return isinstance(x, (int, Fraction))


def nrm(x):
  if type(x) is Fraction and x.denominator == 1:
    return x.numerator
  return x


SP = {'inf': INF, '-inf': NINF, 'nan': NAN}


def _spkey(x):
  return 'nan' if x != x else ('inf' if x > 0 else '-inf')


def lift(x):
  """any float scalar -> F"""
  if isinstance(x, F):
    return x
  if isinstance(x, float):
    x = cnum(x)
    if isinstance(x, float):
      return F({}, {_spkey(x): True})
  if isinstance(x, U):
    terms = {}
    for k, g in x.d.items():
      if k != 0:
        terms[g] = k
    return F({(): terms} if terms else {}, None, list(x.d.items()))
  if isinstance(x, B):
    return F({(): {x: 1}}, None, [(1, x), (0, bnot(x))])
  if is_bv(x):
    name = 'bv2f_%d' % x.get_id()
    cx.ctx().flags.setdefault('keep', []).append(x)
    return int_atom(name, x)
  if x == 0:
    return F({})
  return F({(): {True: x}})


def mkF(terms, sp=None, part=None):
  """normalise: drop zero coefficients, unwrap constants"""
  out = {}
  for m, cs in terms.items():
    cs = {g: nrm(c) for g, c in cs.items() if c != 0}
    if cs:
      out[m] = cs
  if sp:
    sp = {k: g for k, g in sp.items() if g is not False}
    for k, g in sp.items():
      if g is True:
        return SP[k]
  if not sp:
    if not out:
      return 0
    if len(out) == 1 and () in out:
      cs = out[()]
      if len(cs) == 1:
        g, c = next(iter(cs.items()))
        if g is True:
          return c
  return F(out, sp, part)


def _spsym(a):
  if isinstance(a, F):
    return a.sp
  if isinstance(a, float) and not math.isfinite(a):
    return {_spkey(a): True}
  return {}


def _merge_sp_add(a, b):
  sa, sb = _spsym(a), _spsym(b)
  if not sa and not sb:
    return None
  out = {}
  nan = bor(sa.get('nan', False), sb.get('nan', False))
  p = bor(sa.get('inf', False), sb.get('inf', False))
  n = bor(sa.get('-inf', False), sb.get('-inf', False))
  nan = bor(nan, band(p, n))
  out['nan'] = nan
  out['inf'] = band(p, bnot(nan))
  out['-inf'] = band(n, bnot(nan))
  return out


def _finite_terms(a):
  if isinstance(a, F):
    return a.terms
  if isinstance(a, float) and not math.isfinite(a):
    return {}
  return lift(a).terms


def fadd(a, b):
  if isnum(a) and isnum(b):
    return nrm(a + b)
  if isinstance(a, float) and isinstance(b, float):
    return a + b
  if isnum(a) and a == 0 and not isinstance(b, U): return b
  if isnum(b) and b == 0 and not isinstance(a, U): return a
  ta, tb = _finite_terms(a), _finite_terms(b)
  if len(ta) < len(tb):
    ta, tb = tb, ta
  out = dict(ta)
  for m, cs in tb.items():
    p = out.get(m)
    if p is None:
      out[m] = cs
    else:
      q = dict(p)
      for g, c in cs.items():
        v = q.get(g, 0) + c
        if v == 0: q.pop(g, None)
        else: q[g] = v
      if q: out[m] = q
      else: del out[m]
  part = None
  if isinstance(a, F) and a.part and isnum(b):
    part = [(v + b, g) for v, g in a.part]
  elif isinstance(b, F) and b.part and isnum(a):
    part = [(v + a, g) for v, g in b.part]
  r = mkF(out, _merge_sp_add(a, b), part)
  la = lbound(a)
  if la is not None:
    lb = lbound(b)
    if lb is not None:
      with_lb(r, la + lb)
  return r


class Acc:
  """Accumulates guarded products cheaply (for matmul / scatter_add)."""
  __slots__ = ('t', 'sp', 'lb')

  def __init__(self):
    self.t = {}
    self.sp = None
    self.lb = 0

  def add(self, a, guard=True):
    if self.lb is not None and guard is not False:
      l = lbound(a)
      self.lb = None if l is None else self.lb + (l if guard is True else min(l, 0))
    if isnum(a):
      if a == 0 or guard is False: return
      d = self.t.setdefault((), {})
      d[guard] = d.get(guard, 0) + a
      return
    if isinstance(a, float) or (isinstance(a, F) and a.sp):
      a = fite(guard, a, 0)
      if self.sp is None: self.sp = 0
      self.sp = fadd(self.sp, a)
      return
    for m, cs in lift(a).terms.items():
      d = self.t.setdefault(m, {})
      for g, c in cs.items():
        h = g if guard is True else band(g, guard)
        if h is False: continue
        d[h] = d.get(h, 0) + c

  def get(self):
    r = with_lb(mkF(self.t), self.lb)
    return r if self.sp is None else fadd(mkF(self.t), self.sp)


def fneg(a):
  if isnum(a) or isinstance(a, float):
    return -a
  a = lift(a)
  sp = {{'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}[k]: g
        for k, g in a.sp.items()}
  r = F({m: {g: -c for g, c in cs.items()} for m, cs in a.terms.items()},
        sp, [(-v, g) for v, g in a.part] if a.part else None)
  if not sp:
    s = fsign(a)
    if s == 1: r.neg = True
    elif s == -1: with_lb(r, 0)
  return r


def fscale(a, k):
  if k == 1: return a
  if k == 0 and not a.sp: return 0
  l = lbound(a)
  if l is not None and k > 0 and not a.sp:
    r = mkF({m: {g: nrm(c * k) for g, c in cs.items()} for m, cs in a.terms.items()}, None,
            [(nrm(v * k), g) for v, g in a.part] if a.part else None)
    return with_lb(r, l * k)
  sp = None
  if a.sp:
    if k > 0: sp = a.sp
    elif k < 0: sp = {{'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}[q]: g
                      for q, g in a.sp.items()}
    else: sp = {'nan': bany(a.sp.values())}
  return mkF({m: {g: nrm(c * k) for g, c in cs.items()}
              for m, cs in a.terms.items()}, sp,
             [(nrm(v * k), g) for v, g in a.part] if a.part else None)


def _mono_mul(m, n):
  if not m: return n
  if not n: return m
  return tuple(sorted(m + n))


def _reduce_mono(m):
  """rewrite x*x -> x.square when the atom has such a rule; None if no rule"""
  at = _atoms()['list']
  for i in range(len(m) - 1):
    if m[i] == m[i + 1] and at[m[i]].square is not None:
      rest = F({m[:i] + m[i + 2:]: {True: 1}}) if len(m) > 2 else 1
      return fmul(rest, at[m[i]].square)
    if at[m[i]].fn == 'inv':
      pass
  return None


def fmul(a, b):
  if isnum(a):
    if isnum(b): return nrm(a * b)
    if isinstance(b, float): return float('nan') if a == 0 else (b if a > 0 else -b)
    return fscale(lift(b), a)
  if isnum(b):
    return fmul(b, a)
  if isinstance(a, float) and isinstance(b, float):
    return a * b
  A, Bf = lift(a), lift(b)
  sp = None
  if A.sp or Bf.sp:
    return _mul_special(A, Bf)
  out = {}
  extra = []
  for m, cs in A.terms.items():
    for n, ds in Bf.terms.items():
      k = _mono_mul(m, n)
      red = None
      if m and n:
        red = _reduce_mono(k)
      if red is not None:
        acc = {}
      else:
        acc = out.get(k)
        if acc is None:
          acc = out[k] = {}
      for g, c in cs.items():
        for h, d in ds.items():
          gh = band(g, h)
          if gh is False: continue
          v = acc.get(gh, 0) + c * d
          if v == 0: acc.pop(gh, None)
          else: acc[gh] = v
      if red is not None and acc:
        extra.append(fmul(mkF({(): acc}), red) if not (
            len(acc) == 1 and True in acc) else fmul(acc[True], red))
  part = None
  if A.part and Bf.part and len(A.part) * len(Bf.part) <= 64:
    pd = {}
    for v, g in A.part:
      for w, h in Bf.part:
        gh = band(g, h)
        if gh is not False:
          pd[v * w] = bor(pd.get(v * w, False), gh)
    part = list(pd.items())
  r = mkF(out, sp, part)
  for e in extra:
    r = fadd(r, e)
  if a is b or same_terms(A, Bf):
    with_lb(r, 0)
  else:
    la = lbound(A)
    lb = lbound(Bf)
    if la is not None and la > 0 and lb is not None and lb > 0:
      with_lb(r, la * lb)
    else:
      sa = fsign(A)
      sb = fsign(Bf) if sa is not None else None
      if sb is not None and isinstance(r, F):
        if sa == sb: with_lb(r, 0)
        else: r.neg = True
  return r


def _mul_special(A, Bf):
  """product when one side has guarded specials"""
  def split(x):
    res = [(SP[k], g) for k, g in x.sp.items()]
    fin = bnot(bany(x.sp.values()))
    res.append((mkF(x.terms), fin))
    return res
  out = None
  for x, g in split(A):
    for y, h in split(Bf):
      gh = band(g, h)
      if gh is False: continue
      if isinstance(x, float) and isinstance(y, float):
        v = x * y
      elif isinstance(x, float) or isinstance(y, float):
        s, f = (x, y) if isinstance(x, float) else (y, x)
        if s != s: v = NAN
        elif isnum(f): v = NAN if f == 0 else (s if f > 0 else -s)
        else:
          pos, neg = fcmp('lt', 0, f), fcmp('lt', f, 0)
          v = fite(pos, s, fite(neg, -s, NAN))
      else:
        v = fmul(x, y)
      out = v if out is None else fite(gh, v, out)
  return out


def fite(c, a, b):
  if c is True: return a
  if c is False: return b
  if isnum(a) and isnum(b) and a == b: return a
  if a is b: return a
  nc = bnot(c)
  out = {}
  for x, g0 in ((a, c), (b, nc)):
    for m, cs in _finite_terms(x).items():
      d = out.get(m)
      if d is None: d = out[m] = {}
      for g, k in cs.items():
        gh = band(g, g0)
        if gh is False: continue
        v = d.get(gh, 0) + k
        if v == 0: d.pop(gh, None)
        else: d[gh] = v
  # merge complementary guards with the same coefficient
  for m, d in out.items():
    if len(d) == 2:
      (g1, k1), (g2, k2) = d.items()
      if k1 == k2 and g1 is not True and g2 is not True:
        o = bor(g1, g2)
        if band(g1, g2) is False:
          out[m] = {o: k1}
  sp = None
  sa, sb = _spsym(a), _spsym(b)
  if sa or sb:
    sp = {}
    for k in SP:
      sp[k] = bor(band(sa.get(k, False), c), band(sb.get(k, False), nc))
  part = None
  pa = a.part if isinstance(a, F) else ([(a, True)] if isnum(a) else
       list(a.d.items()) if isinstance(a, U) else None)
  pb = b.part if isinstance(b, F) else ([(b, True)] if isnum(b) else
       list(b.d.items()) if isinstance(b, U) else None)
  if pa and pb:
    pd = {}
    for p, g0 in ((pa, c), (pb, nc)):
      for v, g in p:
        gh = band(g, g0)
        if gh is False: continue
        pd[v] = bor(pd.get(v, False), gh)
    part = list(pd.items())
  r = mkF(out, sp, part)
  la = lbound(a)
  if la is not None:
    lb = lbound(b)
    if lb is not None: with_lb(r, min(la, lb))
  return r


def is_const_poly(a):
  return isinstance(a, F) and all(m == () for m in a.terms)


def partition(a):
  """[(Fraction, guard)] for a guarded constant."""
  if isnum(a):
    return [(a, True)]
  if isinstance(a, U):
    return list(a.d.items())
  if isinstance(a, B):
    return [(1, a), (0, bnot(a))]
  if a.part:
    return a.part
  cs = a.terms.get((), {})
  parts = {0: True}
  c = cx.ctx()
  for g, k in cs.items():
    new = {}
    ng = bnot(g)
    for v, gv in parts.items():
      x = band(gv, g)
      if x is not False:
        new[v + k] = bor(new.get(v + k, False), x)
      y = band(gv, ng)
      if y is not False:
        new[v] = bor(new.get(v, False), y)
    parts = new
    if len(parts) > 24 and any(isinstance(g, B) and g.tt is None for g in parts.values()):
      parts = {v: g for v, g in parts.items() if c.feasible(g)}
    if len(parts) > 2048:
      raise Unsupported('too many values in a guarded constant')
  a.part = [(nrm(v), g) for v, g in parts.items()]
  return a.part


def fmap_parts(f, a):
  """apply f to a guarded constant"""
  out = {}
  sp = dict(a.sp) if isinstance(a, F) else {}
  plist = []
  fin = bnot(bany(sp.values())) if sp else True
  for v, g in partition(a):
    if fin is not True: g = band(g, fin)
    if g is False: continue
    w = f(v)
    if isinstance(w, float) and not math.isfinite(w):
      k = _spkey(w)
      sp[k] = bor(sp.get(k, False), g)
    else:
      w = cnum(w)
      plist.append((w, g))
      if w != 0:
        out[g] = out.get(g, 0) + w
  return mkF({(): out}, sp, plist if not sp else None)


def fdiv(a, b):
  if isnum(b):
    if b == 0:
      if isnum(a):
        return NAN if a == 0 else (INF if a > 0 else NINF)
      if isinstance(a, float):
        return a
      pos, neg = fcmp('lt', 0, a), fcmp('lt', a, 0)
      return fite(pos, INF, fite(neg, NINF, NAN))
    if isinstance(a, float): return a if b > 0 else -a
    return fmul(a, Fraction(1) / b)
  return fmul(a, frecip(b))


def frecip(b):
  if isnum(b):
    return nrm(Fraction(1) / b) if b != 0 else INF
  if isinstance(b, float):
    return NAN if b != b else 0
  b = lift(b)
  if is_const_poly(b):
    # inf -> 0
    sp = b.sp
    if sp:
      fin = F(b.terms, None)
      r = fmap_parts(lambda v: Fraction(1) / v if v != 0 else INF, fin)
      r = fite(bor(sp.get('inf', False), sp.get('-inf', False)), 0, r)
      return fite(sp.get('nan', False), NAN, r)
    return fmap_parts(lambda v: Fraction(1) / v if v != 0 else INF, b)
  if b.sp:
    raise Unsupported('reciprocal of guarded special')
  l = lbound(b)
  if l is not None and l > 0:
    return with_lb(fn_atom('inv', [b]), 0)
  z = fcmp('eq', b, 0)
  if cx.ctx().decide(z):
    return INF
  return fn_atom('inv', [b])


# ---- uninterpreted / lightly axiomatised functions --------------------------
_EVAL = {
    'inv': lambda x: 1.0 / x if x != 0 else INF,
    'sqrt': lambda x: math.sqrt(x) if x >= 0 else NAN,
    'tanh': math.tanh,
    'relu': lambda x: max(x, 0.0),
    'sin': math.sin, 'cos': math.cos,
    'exp': lambda x: math.exp(min(x, 700)),
    'log': lambda x: math.log(x) if x > 0 else (NINF if x == 0 else NAN),
    'sigmoid': lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
}


def _rnd(fmt):
  import numpy as np
  import torch
  dt = {'f16': torch.float16, 'bf16': torch.bfloat16, 'f32': torch.float32}[fmt]
  return lambda x: float(torch.tensor(float(x), dtype=torch.float64).to(dt))


for _f in ('f16', 'bf16'):
  _EVAL['rnd_' + _f] = _rnd(_f)


def same_terms(a, b):
  if len(a.terms) != len(b.terms):
    return False
  for m, cs in a.terms.items():
    if b.terms.get(m) != cs:
      return False
  return True


def _hash_eq_cs(cs, ds):
  return cs == ds


def fn_atom(fn, args):
  """function atom; arguments equal under the path condition share the atom"""
  t = _atoms()
  args = [lift(a) for a in args]
  if any(a.sp for a in args):
    raise Unsupported('%s of guarded special value' % fn)
  lst = t['fn'].setdefault(fn, [])
  for a in lst:
    if all(same_terms(x, y) for x, y in zip(a.args, args)):
      return F({(a.id,): {True: 1}})
  fp = fingerprint(args)
  for a in lst:
    if a.lo_val is not None and fp is not None and a.lo_val[0] == fp[0]:
      if a.lo_val[1] != fp[1]:
        continue
    if all(prove_equal(x, y) for x, y in zip(a.args, args)):
      return F({(a.id,): {True: 1}})
  a = new_atom('%s#%d' % (fn, len(lst)), 'fn')
  a.fn, a.args, a.lo_val = fn, args, fp
  if fn == 'sqrt':
    a.square = args[0]
    a.lo = 0
    a.axioms = lambda: [a.z >= 0, a.z * a.z == zreal(args[0])]
  elif fn == 'inv':
    a.axioms = lambda: [a.z * zreal(args[0]) == 1]
  elif fn == 'relu':
    a.axioms = lambda: [a.z == z3.If(zreal(args[0]) > 0, zreal(args[0]), 0)]
  elif fn == 'exp':
    a.axioms = lambda: [a.z > 0]
  elif fn == 'tanh':
    a.axioms = lambda: [a.z > -1, a.z < 1]
  lst.append(a)
  return F({(a.id,): {True: 1}})


def fingerprint(args):
  c = cx.ctx()
  ms = sample_models()
  if not ms:
    return None
  out = []
  for m in ms:
    for x in args:
      v = m.feval(x)
      out.append(float('%.5e' % float(v)) if math.isfinite(float(v)) else str(v))
  return (len(c.pc), tuple(out))


def sample_models():
  c = cx.ctx()
  k = (len(c.pc), len(c.pcz))
  if c.flags.get('sm_key') == k:
    return c.flags['sm']
  ms = []
  r = c.check()
  if r == z3.sat:
    ms.append(Model(c.solver.model(), seed=1))
    # a second, different model when there are Boolean atoms
    names = [b.z for b in G.atoms.values()][:12]
    if names:
      m0 = c.solver.model()
      c.solver.push()
      c.solver.add(z3.Or([z3.Not(b) if z3.is_true(m0.eval(b)) else b for b in names]))
      if c.check() == z3.sat:
        ms.append(Model(c.solver.model(), seed=2))
      c.solver.pop()
  c.flags['sm_key'], c.flags['sm'] = k, ms
  return ms


def funary(fn, a):
  """pointwise function of a float scalar"""
  ev = _EVAL[fn]
  if isnum(a) or isinstance(a, float):
    if isinstance(a, float) and a != a: return NAN
    if fn == 'sqrt' and isnum(a) and a >= 0:
      n, d = Fraction(a).numerator, Fraction(a).denominator
      rn, rd = math.isqrt(n), math.isqrt(d)
      if rn * rn == n and rd * rd == d:
        return nrm(Fraction(rn, rd))
      if cx.ctx() is not None and cx.ctx().flags.get('exact_sqrt', True):
        return with_lb(fn_atom('sqrt', [a]), min(a, 1)) if a > 0 else fn_atom('sqrt', [a])
    if fn in ('sin', 'cos', 'tanh', 'exp', 'log') and a == 0:
      return cnum(ev(0.0)) if fn != 'log' else NINF
    return cnum(ev(float(a)))
  a = lift(a)
  if is_const_poly(a) and fn != 'sqrt':
    return fmap_parts(lambda v: ev(float(v)), a)
  if is_const_poly(a) and fn == 'sqrt':
    r = None
    for v, g in partition(a):
      w = funary('sqrt', v)
      r = w if r is None else fite(g, w, r)
    return r
  r = fn_atom(fn, [a])
  if fn == 'sqrt':
    l = lbound(a)
    with_lb(r, min(l, 1) if l is not None and l > 0 else 0)
  elif fn in ('exp', 'sigmoid', 'relu'):
    with_lb(r, 0)
  return r


# ---- comparison, z3 view ------------------------------------------------------
def zreal(a):
  """z3 Real term of a finite float."""
  if isnum(a):
    return z3.RealVal(Fraction(a))
  a = lift(a)
  at = _atoms()['list']
  c = cx.ctx()
  ts = []
  for m, cs in a.terms.items():
    prod = None
    for i in m:
      x = at[i]
      if x.kind == 'int':
        v = z3.ToReal(z3.BV2Int(x.bv, is_signed=True))
      else:
        v = x.z
        if x.axioms is not None:
          ax = x.axioms
          x.axioms = None
          for e in ax():
            c.assume_z3(e)
      prod = v if prod is None else prod * v
    for g, k in cs.items():
      kk = z3.RealVal(Fraction(k))
      t = kk if prod is None else (prod if k == 1 else kk * prod)
      ts.append(t if g is True else z3.If(toz3(g), t, z3.RealVal(0)))
  if not ts:
    return z3.RealVal(0)
  return z3.Sum(ts) if len(ts) > 1 else ts[0]


def has_int_atom(a):
  at = _atoms()['list']
  return any(at[i].kind == 'int' for m in a.terms for i in m)


def _fin_cmp(op, d):
  """d op 0 for a finite F difference"""
  if isnum(d):
    return d < 0 if op == 'lt' else d <= 0 if op == 'le' else d == 0
  l = lbound(d)
  if l is not None and (l > 0 or (l == 0 and op == 'lt')):
    return False
  if is_const_poly(d):
    return bany(g for v, g in partition(d)
                if (v < 0 if op == 'lt' else v <= 0 if op == 'le' else v == 0))
  if has_int_atom(d):
    if op == 'lt':
      return int_cmp('lt', ffloor(d), 0)
    if op == 'le':
      return bnot(int_cmp('lt', ffloor(fneg(d)), 0))
    return band(bnot(int_cmp('lt', ffloor(d), 0)),
                bnot(int_cmp('lt', ffloor(fneg(d)), 0)))
  # common positive scaling for canonical atoms
  lead = None
  for m, cs in d.terms.items():
    for g, k in cs.items():
      lead = k if lead is None else lead
  b = simple_bounds(d)
  if b is not None:
    lo, lo_open, hi, hi_open = b
    if op in ('lt', 'le'):
      if hi is not None and (hi < 0 or (hi == 0 and (hi_open or op == 'le'))):
        return True
      if lo is not None and (lo > 0 or (lo == 0 and (lo_open or op == 'lt'))):
        return False
    elif (lo is not None and (lo > 0 or (lo == 0 and lo_open))) or \
         (hi is not None and (hi < 0 or (hi == 0 and hi_open))):
      return False
  d = fscale(d, Fraction(1) / abs(lead))
  if is_nonlinear(d):
    return lazy_cmp(op, d, lead < 0)
  e = zreal(d)
  z = e < 0 if op == 'lt' else e <= 0 if op == 'le' else e == 0
  return gd.zatom(z)


def is_nonlinear(d):
  at = _atoms()['list']
  return any(len(m) > 1 or (m and at[m[0]].kind == 'fn') for m in d.terms)


def lazy_cmp(op, d, flip):
  """comparison of a non-linear term with 0: an uninterpreted guard (over-approximation);
  its definition is added only when a counterexample turns out to be spurious"""
  if op == 'le':
    return bor(lazy_cmp('lt', d, flip), lazy_cmp('eq', d, flip))
  if flip:
    d = fneg(d)
    if op == 'lt':       # d' = -d;  d < 0  <=>  not (d' <= 0)
      return bnot(bor(lazy_cmp('lt', d, False), lazy_cmp('eq', d, False)))
  c = cx.ctx()
  tab = c.flags.setdefault('lazy', {'ops': {}, 'names': {}})
  lst = tab['ops'].setdefault(op, [])
  hit = None
  for e, n in lst:
    if same_terms(e, d):
      return n
  fp = None
  for e, n in lst:
    if set(e.terms) == set(d.terms):
      fp = fingerprint([d]) if fp is None else fp
      if fp is not None and fp != fingerprint([e]): continue
      if prove_equal(e, d):
        return n
  name = 'nl_%s_%d' % (op, len(lst))
  n = gd.zatom(z3.Bool(name))
  lst.append((d, n))
  tab['names'][name] = (op, d)
  if op in ('lt', 'eq'):
    o = [m for e, m in tab['ops'].get('eq' if op == 'lt' else 'lt', []) if same_terms(e, d)]
    for m in o:
      c.assume_z3(z3.Not(z3.And(toz3(n), toz3(m))))
  return n


def define_lazy():
  """adds the definitions of the uninterpreted comparisons; False if there are none"""
  c = cx.ctx()
  tab = c.flags.get('lazy')
  if not tab: return False
  new = False
  for name, (op, d) in list(tab['names'].items()):
    if name in tab.setdefault('defined', set()): continue
    tab['defined'].add(name)
    new = True
    e = zreal(d)
    c.assume_z3(z3.Bool(name) == (e < 0 if op == 'lt' else e == 0))
  return new


def simple_bounds(d):
  """interval of an F that is linear in bounded atoms (unguarded)"""
  at = _atoms()['list']
  lo = hi = Fraction(0)
  lo_open = hi_open = False
  for m, cs in d.terms.items():
    if len(m) > 1:
      return None
    if m == ():
      if len(cs) == 1 and True in cs:
        lo += cs[True]
        hi += cs[True]
        continue
      n = sum(k for g, k in cs.items() if k < 0 and g is not True)
      p = sum(k for g, k in cs.items() if k > 0 and g is not True)
      u = cs.get(True, 0)
      lo += n + u
      hi += p + u
      continue
    if len(cs) != 1 or True not in cs:
      return None
    a, k = at[m[0]], cs[True]
    if a.kind == 'int' or a.lo is None or a.hi is None:
      return None
    if k > 0:
      lo += k * a.lo
      hi += k * a.hi
      hi_open = True      # atoms range over [lo, hi)
    else:
      lo += k * a.hi
      hi += k * a.lo
      lo_open = True
  return lo, lo_open, hi, hi_open


def fcmp(op, a, b):
  sa, sb = _spsym(a), _spsym(b)
  if not sa and not sb:
    return _fin_cmp(op, fadd(a, fneg(b)))
  # specials
  nan = bor(sa.get('nan', False), sb.get('nan', False))
  fa = bnot(bany(sa.values())) if sa else True
  fb = bnot(bany(sb.values())) if sb else True
  pa, na = sa.get('inf', False), sa.get('-inf', False)
  pb, nb = sb.get('inf', False), sb.get('-inf', False)
  fin = band(fa, fb)
  if fin is False:
    base = False
  else:
    x = mkF(a.terms) if isinstance(a, F) else (a if isnum(a) else 0)
    y = mkF(b.terms) if isinstance(b, F) else (b if isnum(b) else 0)
    base = band(fin, _fin_cmp(op, fadd(x, fneg(y))))
  if op == 'eq':
    r = bor(band(pa, pb), band(na, nb))
  else:
    r = bor(band(na, bnot(bor(nb, sb.get('nan', False)))),
            band(pb, bnot(bor(pa, sa.get('nan', False)))))
    if op == 'le':
      r = bor(r, bor(band(pa, pb), band(na, nb)))
  return band(bnot(nan), bor(base, r))


def ffloor(a):
  """floor to an integer scalar"""
  if isnum(a):
    return math.floor(a)
  if isinstance(a, (U, int)) or is_bv(a):
    return a
  a = lift(a)
  if a.sp:
    raise Unsupported('floor of special')
  if is_const_poly(a):
    out = {}
    for v, g in partition(a):
      k = math.floor(v)
      out[k] = bor(out.get(k, False), g)
    return mkU(out)
  at = _atoms()['list']
  den = 1
  ints, rest, const = [], {}, None
  for m, cs in a.terms.items():
    if m == ():
      const = cs
      continue
    if len(m) == 1 and at[m[0]].kind == 'int':
      if not (len(cs) == 1 and True in cs):
        raise Unsupported('floor: guarded integer atom')
      k = Fraction(cs[True])
      if not _is_pow2(k.denominator):
        raise Unsupported('floor: non dyadic coefficient')
      den = max(den, k.denominator)
      ints.append((at[m[0]], k))
    else:
      rest[m] = cs
  sh = den.bit_length() - 1
  if not ints:
    den, sh = 1, 0
  # y = den * a = I + (rest + const) * den
  parts = [(Fraction(0), True)]
  if const:
    parts = partition(F({(): const}))
  out = None
  for v, g in parts:
    r = mkF({m: {h: c * den for h, c in cs.items()} for m, cs in rest.items()})
    fl = _floor_real(fadd(r, nrm(Fraction(v) * den)))
    I = fl
    for x, k in ints:
      I = int_bin('add', I, int_bin('mul', x.bv, int(k * den)))
    if sh:
      I = int_bin('shr', I, sh)
    out = I if out is None else int_ite(g, I, out)
  return out


def _floor_real(r):
  if isnum(r):
    return math.floor(r)
  if is_const_poly(r):
    return ffloor(r)
  b = simple_bounds(r)
  if b is None:
    # ask the solver for bounds
    b = solver_bounds(r)
  lo, _, hi, hi_open = b
  k0, k1 = math.floor(lo), math.floor(hi)
  if hi_open and hi == k1:
    k1 -= 1
  if k1 <= k0:
    return k0
  if k1 - k0 > 64:
    raise Unsupported('floor range too large')
  e = zreal(r)
  out = {}
  prev = True
  for k in range(k0, k1 + 1):
    lt = True if k == k1 else gd.zatom(e < k + 1)
    out[k] = band(prev, lt)
    prev = band(prev, bnot(lt))
  return mkU(out)


def solver_bounds(r):
  e = zreal(r)
  c = cx.ctx()
  for w in (1, 2, 4, 8, 16, 32):
    if c.check(z3.Not(z3.And(e >= -w, e < w))) == z3.unsat:
      return Fraction(-w), False, Fraction(w), True
  raise Unsupported('floor of an unbounded value')


def ftrunc(a):
  if isnum(a):
    return int(a)
  if isinstance(a, float):
    return -(1 << 63)
  a = lift(a)
  lo = ffloor(a)
  neg = int_cmp('lt', lo, 0)
  if neg is False:
    return lo
  hi = int_bin('sub', 0, ffloor(fneg(a)))
  return int_ite(neg, hi, lo)


# ---- generic numeric helpers used by reference code ---------------------------
def is_float(x):
  return isinstance(x, (F, Fraction, float))


def num_add(a, b):
  if is_float(a) or is_float(b):
    return fadd(a, b) if not isinstance(a, (U, B)) and not isinstance(b, (U, B)) \
        else fadd(lift(a), lift(b))
  return int_bin('add', a, b)


def num_sub(a, b):
  if is_float(a) or is_float(b):
    return fadd(lift(a) if isinstance(a, (U, B)) else a,
                fneg(lift(b) if isinstance(b, (U, B)) else b))
  return int_bin('sub', a, b)


def num_mul(a, b):
  if is_float(a) or is_float(b):
    return fmul(lift(a) if isinstance(a, (U, B)) else a,
                lift(b) if isinstance(b, (U, B)) else b)
  return int_bin('mul', a, b)


def num_cmp(op, a, b):
  if is_float(a) or is_float(b):
    return fcmp(op, lift(a) if isinstance(a, (U, B)) else a,
                lift(b) if isinstance(b, (U, B)) else b)
  return int_cmp(op, a, b)


def num_ite(c, a, b):
  if not isinstance(c, B):
    return a if c else b
  if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
    return bite(c, a, b)
  if is_float(a) or is_float(b):
    return fite(c, lift(a) if isinstance(a, (U, B)) else a,
                lift(b) if isinstance(b, (U, B)) else b)
  return int_ite(c, a, b)


# ---- proofs of equality -------------------------------------------------------
def pb_nonzero(cs):
  """z3 Bool: sum of coef*[guard] != 0"""
  den = 1
  for c in cs.values():
    den = den * Fraction(c).denominator // math.gcd(den, Fraction(c).denominator)
  const = 0
  args = []
  for g, c in cs.items():
    k = int(Fraction(c) * den)
    if g is True:
      const += k
    else:
      args.append((toz3(g), k))
  if not args:
    return z3.BoolVal(const != 0)
  if len(args) == 1:
    z, k = args[0]
    if const == 0: return z
    if const + k == 0: return z3.Not(z)
    return z3.BoolVal(True)
  if len(args) == 2 and const == 0 and args[0][1] == -args[1][1]:
    return z3.Xor(args[0][0], args[1][0])
  if max(abs(k) for _, k in args) > 1 << 20 or abs(const) > 1 << 24:
    # unwieldy coefficients: every magnitude has to cancel by itself (over-approximation)
    by = {}
    for z, k in args:
      by.setdefault(abs(k), []).append((z, 1 if k > 0 else -1))
    ors = [z3.BoolVal(True)] if const and abs(const) not in by else []
    for mag, l in by.items():
      c0 = 0
      if abs(const) == mag: c0 = 1 if const > 0 else -1
      if len(l) == 1 and c0 == 0:
        ors.append(l[0][0])
      elif len(l) == 2 and c0 == 0 and l[0][1] != l[1][1]:
        ors.append(z3.Xor(l[0][0], l[1][0]))
      else:
        ors.append(z3.Not(z3.PbEq(l, -c0)))
    return z3.Or(ors)
  return z3.Not(z3.PbEq([(z, k) for z, k in args], -const))


def diff_nonzero(a, b):
  """z3 Bool that over-approximates a != b (coefficientwise)."""
  sa, sb = _spsym(a), _spsym(b)
  ors = []
  fin = None
  if sa or sb:
    for k in SP:
      x, y = sa.get(k, False), sb.get(k, False)
      if x is not y:
        ors.append(z3.Xor(toz3(x), toz3(y)))
    fin = z3.Not(toz3(bany(list(sa.values()))))
  ta, tb = _finite_terms(a), _finite_terms(b)
  d = fadd(F(ta), fneg(F(tb)))
  if isnum(d):
    body = [z3.BoolVal(d != 0)]
  else:
    body = [pb_nonzero(cs) for cs in d.terms.values()]
  body = [e for e in body if not z3.is_false(e)]
  if fin is not None:
    ors += [z3.And(fin, e) for e in body]
  else:
    ors += body
  if not ors:
    return z3.BoolVal(False)
  return z3.Or(ors) if len(ors) > 1 else ors[0]


def prove_equal(a, b):
  e = diff_nonzero(a, b)
  if z3.is_false(e):
    return True
  if z3.is_true(e):
    return False
  return cx.ctx().check(e) == z3.unsat


# ---- models -------------------------------------------------------------------
def generic_value(name, seed=0):
  """a generic small dyadic for an unconstrained real atom"""
  h = zlib.crc32(('%s/%d' % (name, seed)).encode())
  v = Fraction((h % 61) - 30, 8)
  if v == 0:
    v = Fraction(37, 8)
  return v


def z3vars(e, cache={}):
  out, stack, seen = set(), [e], set()
  while stack:
    n = stack.pop()
    i = n.get_id()
    if i in seen:
      continue
    seen.add(i)
    if z3.is_const(n) and n.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      out.add(n.decl().name())
    else:
      stack.extend(n.children())
  return out


class Model:
  """Concrete values for every input atom."""

  def __init__(self, m, seed=0, query=None):
    c = cx.ctx()
    self.m = m
    self.seed = seed
    self.gm = {}
    self.fm = {}
    pinned = set()
    if c is not None:
      for e in list(c.solver.assertions()) + ([query] if query is not None else []):
        pinned |= z3vars(e)
    self.pinned = pinned
    self.av = {}
    self.subs = None

  def bool_atom(self, n):
    if G.atoms.get(n.name) is n:
      v = self.m.eval(n.z, model_completion=False)
      if z3.is_true(v): return True
      if z3.is_false(v): return False
      return bool(zlib.crc32(('%s/%d' % (n.name, self.seed)).encode()) & 1)
    # theory atom
    lz = self.lazy(n.z)
    if lz is not None:
      return lz
    subs = []
    at = _atoms()
    for nm in z3vars(n.z):
      a = at['byname'].get(nm)
      if a is not None and a.z is not None:
        v = self.atom_val(a)
        fv = Fraction(v) if not isinstance(v, float) or math.isfinite(v) else Fraction(0)
        subs.append((a.z, z3.RealVal(fv)))
      elif nm in G.atoms:
        subs.append((G.atoms[nm].z, z3.BoolVal(self.guard(G.atoms[nm]))))
      elif nm.startswith('nl_'):
        subs.append((z3.Bool(nm), z3.BoolVal(self.lazy(z3.Bool(nm)))))
    e = z3.substitute(n.z, *subs) if subs else n.z
    e = self.m.eval(e, model_completion=True)
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    raise Unsupported('cannot evaluate theory atom')

  def lazy(self, z):
    if not (z3.is_const(z) and z.decl().name().startswith('nl_')):
      return None
    tab = cx.ctx().flags['lazy']
    op, d = tab['names'][z.decl().name()]
    v = self.feval(d)
    return bool(v < 0) if op == 'lt' else bool(v == 0)

  def guard(self, g):
    return gd.evaluate(g, self.bool_atom, self.gm)

  def bv(self, e):
    # bit-vector terms may contain guards whose atoms are not in the model
    subs = []
    for nm in z3vars(e):
      if nm in G.atoms:
        subs.append((G.atoms[nm].z, z3.BoolVal(self.guard(G.atoms[nm]))))
      elif nm.startswith('nl_'):
        subs.append((z3.Bool(nm), z3.BoolVal(self.lazy(z3.Bool(nm)))))
    if subs:
      e = z3.substitute(e, *subs)
    v = z3.simplify(self.m.eval(e, model_completion=True))
    return v.as_signed_long()

  def atom_val(self, a):
    v = self.av.get(a.id)
    if v is not None:
      return v
    if a.kind == 'int':
      v = self.bv(a.bv)
    elif a.kind == 'fn':
      args = [self.feval(x) for x in a.args]
      v = _EVAL[a.fn](*[float(x) for x in args])
    else:
      v = None
      if a.name in self.pinned:
        x = self.m.eval(a.z, model_completion=False)
        if z3.is_rational_value(x):
          v = Fraction(x.numerator_as_long(), x.denominator_as_long())
        elif z3.is_algebraic_value(x):
          x = x.approx(30)
          v = Fraction(x.numerator_as_long(), x.denominator_as_long())
      if v is None:
        v = generic_value(a.name, self.seed)
        if a.lo is not None and a.hi is not None:
          h = zlib.crc32(('%s/%d' % (a.name, self.seed)).encode()) % 63 + 1
          v = a.lo + Fraction(h, 64) * (a.hi - a.lo)
        elif a.lo is not None:
          v = a.lo + abs(v)
    self.av[a.id] = v
    return v

  def feval(self, a):
    if isnum(a) or isinstance(a, float):
      return a
    if isinstance(a, U):
      return self.ival(a)
    a = lift(a)
    for k, g in a.sp.items():
      if self.guard(g):
        return SP[k]
    tot = 0
    for m, cs in a.terms.items():
      k = sum(c for g, c in cs.items() if g is True or self.guard(g))
      if k == 0:
        continue
      p = k
      for i in m:
        v = self.atom_val(atom_by_id(i))
        if isinstance(v, float) and isinstance(p, Fraction):
          p = float(p)
        p = p * v
      tot = tot + p
    return tot

  def ival(self, x):
    if isinstance(x, U):
      for k, g in x.d.items():
        if g is True or self.guard(g):
          return k
      raise Unsupported('union without true guard')
    if is_bv(x):
      return self.bv(x)
    if isinstance(x, B):
      return int(self.guard(x))
    return int(x)

  def value(self, x):
    if isinstance(x, B):
      return self.guard(x)
    if isinstance(x, F):
      return self.feval(x)
    if is_symint(x):
      return self.ival(x)
    return x
