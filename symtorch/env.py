"""The harness environment.

A harness is a Python function h(e, **cfg) written once.  Under SymEnv its inputs
are symbolic and the library code runs under the symbolic dispatch mode; under
ConcreteEnv the same harness runs the library natively on concrete inputs (used
to replay counterexamples and to validate the encoding on a model of each path).
"""
import hashlib
import itertools
import json
import math
import os
import random as _random
import sys
import types
import time
import traceback
from contextlib import contextmanager
from fractions import Fraction
import numpy as np
import torch
import z3
from torch.utils._python_dispatch import TorchDispatchMode
from . import ctx as cx
from . import guard as gd
from . import value as vl
from .ctx import Ctx, Unsupported, PathInfeasible, Deadline
from .guard import B, G, band, bor, bnot
from .tensor import SymTensor, SymMode, payload, sym, from_flat, kind_of
from .lazy import FnMode, Lazy, SymNd
from .value import F, U

RTOL = 2e-4


class Failure(Exception):
  """A harness assertion failed natively."""


def enc(v):
  if isinstance(v, Fraction):
    return 'q:%d/%d' % (v.numerator, v.denominator)
  if isinstance(v, float):
    return 'f:' + v.hex() if math.isfinite(v) else 'f:' + repr(v)
  if isinstance(v, (bool, int, str)) or v is None:
    return v
  if isinstance(v, np.ndarray):
    return [enc(x) for x in v.tolist()]
  if isinstance(v, (list, tuple)):
    return [enc(x) for x in v]
  raise TypeError(type(v))


def dec(v):
  if isinstance(v, str) and v.startswith('q:'):
    a, b = v[2:].split('/')
    return Fraction(int(a), int(b))
  if isinstance(v, str) and v.startswith('f:'):
    s = v[2:]
    return float.fromhex(s) if 'x' in s else float(s)
  if isinstance(v, list):
    return [dec(x) for x in v]
  return v


def flat_scalars(x):
  """tensor / nested list / ndarray / scalar -> (flat list, shape)"""
  if isinstance(x, Lazy):
    x = x.mat()
  if isinstance(x, SymNd):
    x = x.t
  if isinstance(x, SymTensor):
    return list(x.p.flat), tuple(x.shape)
  if isinstance(x, torch.Tensor):
    with torch._C._DisableTorchDispatch():
      return x.detach().reshape(-1).tolist(), tuple(x.shape)
  if isinstance(x, np.ndarray):
    return list(x.flat), tuple(x.shape)
  if isinstance(x, (list, tuple)):
    if len(x) == 0:
      return [], (0,)
    parts = [flat_scalars(y) for y in x]
    out = []
    for f, s in parts:
      if s != parts[0][1]:
        raise ValueError('ragged reference')
      out += f
    return out, (len(x),) + parts[0][1]
  return [x], ()


class BaseEnv:
  sym = False

  def make(self, fn):
    """construct modules (parameters) with the real torch operators"""
    from torch.utils._python_dispatch import _disable_current_modes
    with _disable_current_modes():
      return fn()

  # numeric helpers usable on symbolic and concrete scalars
  def not_(self, a): return bnot(a) if isinstance(a, B) else (not a)

  def and_(self, *xs):
    r = True
    for x in xs: r = band(r, x if isinstance(x, B) else bool(x))
    return r

  def or_(self, *xs):
    r = False
    for x in xs: r = bor(r, x if isinstance(x, B) else bool(x))
    return r

  def all_(self, xs): return self.and_(*xs)
  def any_(self, xs): return self.or_(*xs)
  def implies(self, a, b): return self.or_(self.not_(a), b)
  def iff(self, a, b): return self.or_(self.and_(a, b), self.and_(self.not_(a), self.not_(b)))
  def ite(self, c, a, b): return vl.num_ite(c, a, b)
  def lt(self, a, b): return vl.num_cmp('lt', a, b)
  def le(self, a, b): return vl.num_cmp('le', a, b)
  def eq(self, a, b): return vl.num_cmp('eq', a, b)
  def add(self, a, b): return vl.num_add(a, b)
  def sub(self, a, b): return vl.num_sub(a, b)
  def mul(self, a, b): return vl.num_mul(a, b)
  def div(self, a, b): return vl.fdiv(vl.lift(a) if isinstance(a, (U, B)) else a,
                                      vl.lift(b) if isinstance(b, (U, B)) else b)

  def fn(self, name, x):
    """sqrt, sin, cos ... of a scalar"""
    if cx.ctx() is not None:
      return vl.funary(name, vl.lift(x) if isinstance(x, (U, B)) else x)
    f = {'sqrt': lambda v: math.sqrt(v) if v >= 0 else float('nan'), 'sin': math.sin,
         'cos': math.cos, 'exp': math.exp, 'tanh': math.tanh}[name]
    return vl.cnum(f(float(x)))

  def sqrt(self, x): return self.fn('sqrt', x)

  def count(self, gs):
    """number of true guards as an integer scalar"""
    d = {0: True}
    for g in gs:
      if g is False: continue
      new = {}
      for k, h in d.items():
        for kk, x in ((k, band(h, bnot(g))), (k + 1, band(h, g))):
          if x is not False: new[kk] = bor(new.get(kk, False), x)
      d = new
    return vl.mkU(d) if any(isinstance(g, B) for g in gs) else sum(1 for g in gs if g)

  def dist(self, pairs):
    """[(constant, guard)] -> {sum of the constants with a true guard: guard}"""
    d = {0: True}
    for w, g in pairs:
      if g is False: continue
      new = {}
      for k, h in d.items():
        for kk, x in ((k, band(h, bnot(g) if isinstance(g, B) else not g)), (k + w, band(h, g))):
          if x is not False: new[kk] = bor(new.get(kk, False), x)
      d = new
    return d

  def over(self, num, pairs, f):
    """num * f(sum of the constants with a true guard)"""
    return self.total([(self.mul(num, f(k)), g) for k, g in self.dist(pairs).items()])

  def total(self, pairs):
    """sum of value*[guard]"""
    acc = vl.Acc()
    for v, g in pairs:
      if g is False: continue
      acc.add(v if not isinstance(v, (U, B)) else vl.lift(v), True if g is True else g)
    return acc.get()

  def merge(self, opts):
    """value of exclusive guarded alternatives [(value, guard)]; 0 when none holds"""
    opts = [(v, g) for v, g in opts if g is not False]
    if not opts: return 0
    for v, g in opts:
      if g is True: return v
    if any(isinstance(v, (F, Fraction, float)) for v, _ in opts):
      return self.total(opts)
    if all(isinstance(v, (B, bool)) for v, _ in opts):
      return self.any_(self.and_(v, g) for v, g in opts)
    if any(vl.is_bv(v) for v, _ in opts):
      r = opts[-1][0]
      for v, g in opts[-2::-1]:
        r = vl.int_ite(g, v, r)
      return r
    out, rest = {}, True
    for v, g in opts:
      rest = band(rest, bnot(g))
      for k, h in (v.d.items() if isinstance(v, U) else ((v, True),)):
        gh = band(g, h)
        if gh is not False: out[k] = bor(out.get(k, False), gh)
    return vl.mkU(out)

  def select(self, opts):
    """value of exclusive guarded options [(value, guard)] (last one is default)"""
    r = opts[-1][0]
    for v, g in opts[-2::-1]:
      r = self.ite(g, v, r)
    return r


class SymEnv(BaseEnv):
  sym = True
  slack = 1                   # margins that keep rounding away: half of them in a native run

  def __init__(self, ctx):
    self.c = ctx
    self.inputs = {}          # name -> (kind, list of atoms/values)
    self.obl = []             # (msg, z3 expr "violated", exact thunk or None)
    self.seen = []            # (msg, flat actual) for encoding validation
    self.seed = ctx.flags.get('seed', 1)

  # ---- inputs
  def bits(self, name, n):
    xs = [gd.atom('%s.%d' % (name, i)) for i in range(n)]
    self.inputs[name] = ('bits', xs)
    return list(xs)

  def bvs(self, name, n, lo, hi):
    """n symbolic 64-bit integers in [lo, hi)"""
    xs = []
    for i in range(n):
      x = z3.BitVec('%s.%d' % (name, i), 64)
      self.c.assume_z3(z3.And(x >= lo, x < hi))
      vl.set_bits(str(x), (1 << (hi - 1).bit_length()) - 1 if lo >= 0 else (1 << 64) - 1)
      xs.append(x)
    self.inputs[name] = ('bvs', xs)
    return list(xs)

  def ints(self, name, n, lo, hi):
    """n symbolic integers in [lo, hi) as finite unions"""
    out = []
    for i in range(n):
      if hi - lo == 1:
        out.append(lo)
        continue
      nb = (hi - lo - 1).bit_length()
      bs = [gd.atom('%s.%d.%d' % (name, i, b)) for b in range(nb)]
      def named(v): return gd.ball(bs[b] if v >> b & 1 else bnot(bs[b]) for b in range(nb))
      for v in range(hi - lo, 1 << nb):
        self.c.assume(bnot(named(v)))
      d = {lo + v: named(v) for v in range(hi - lo)}
      out.append(vl.mkU(d))
    self.inputs[name] = ('ints', out)
    return list(out)

  def reals(self, name, shape, lo=None, hi=None):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    xs = []
    for i in range(n):
      f = vl.real_atom('%s.%d' % (name, i), lo, hi)
      a = vl.atom_by_id(next(iter(f.terms))[0])
      if lo is not None: self.c.assume_domain(a.z >= lo)
      if hi is not None: self.c.assume_domain(a.z < hi)
      xs.append(f)
    self.inputs[name] = ('reals', xs)
    return from_flat(xs, shape)

  def fracs(self, name, n):
    """n reals in [0, 1)"""
    return list(self.reals(name, (n,), 0, 1).flat)

  def flag(self, name, value=True):
    """options of the encoding"""
    self.c.flags[name] = value

  def fork(self, name, options):
    options = list(options)
    i = self.c.fork(len(options), name)
    self.inputs[name] = ('fork', i)
    return options[i]

  def fork_on(self, g):
    """True or False: both outcomes are explored"""
    return self.c.decide(g)

  def assume(self, g):
    self.c.assume(g)

  def assume_bv(self, f):
    """f() builds a z3 constraint (only under symbolic execution)"""
    self.c.assume_z3(f())

  @contextmanager
  def spec(self):
    """reference code: guards are built without truth-table simplification"""
    old = G.structural
    G.structural = True
    try:
      yield
    finally:
      G.structural = old

  # ---- tensors
  def T(self, data, dtype=torch.float32):
    f, s = flat_scalars(data)
    k = kind_of(dtype)
    out = []
    for v in f:
      if k == 'f' and not isinstance(v, (F, Fraction, int, float)):
        v = vl.lift(v)
      elif k == 'f' and isinstance(v, (float, int)):
        v = vl.cnum(v)
      elif k == 'i' and isinstance(v, (B, bool)):
        v = vl.bool2int(v)
      out.append(v)
    return sym(from_flat(out, s), dtype)

  def V(self, t):
    f, s = flat_scalars(t)
    return from_flat(f, s)

  # ---- assertions
  def true(self, g, msg):
    self.seen.append((msg, [g]))
    if g is True: 
      self.obl.append((msg, None))
      return
    old = G.structural
    G.structural = True
    try:
      z = gd.toz3(bnot(g) if isinstance(g, B) else (not g))
    finally:
      G.structural = old
    self.obl.append((msg, z, None))

  def equal(self, actual, expected, msg):
    """elementwise equality of arrays / tensors / scalars"""
    fa, sa = flat_scalars(actual)
    fb, sb = flat_scalars(expected)
    self.seen.append((msg, fa))
    if sa != sb:
      self.obl.append((msg + ': shape %s, expected %s' % (sa, sb), z3.BoolVal(True), None))
      return
    old = G.structural
    G.structural = True
    try:
      for i, (a, b) in enumerate(zip(fa, fb)):
        if a is b:
          self.obl.append((msg, None))
          continue
        m = '%s [%s]' % (msg, ','.join(map(str, np.unravel_index(i, sa)))) if sa else msg
        isf = any(isinstance(x, (F, Fraction, float)) for x in (a, b))
        if isf:
          a = vl.lift(a) if isinstance(a, (U, B)) or vl.is_bv(a) else a
          b = vl.lift(b) if isinstance(b, (U, B)) or vl.is_bv(b) else b
          if isinstance(a, float) and isinstance(b, float):
            same = (a == b) or (a != a and b != b)
            self.obl.append((m, None) if same else (m, z3.BoolVal(True), None))
            continue
          z = vl.diff_nonzero(a, b)
          ex = (lambda a=a, b=b: exact_neq(a, b))
        else:
          if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
            z, ex = gd.toz3(gd.bxor(a, b)), None
          else:
            z, ex = gd.toz3(bnot(vl.int_cmp('eq', a, b))), None
        if z3.is_false(z):
          self.obl.append((m, None))
        else:
          self.obl.append((m, z, ex))
    finally:
      G.structural = old

  def fail(self, msg):
    self.obl.append((msg, z3.BoolVal(True), None))

  def draws(self):
    """the random numbers drawn so far"""
    return [v for _, p in self.c.flags.get('random', []) for v in p.flat]

  def note(self, key, val=1):
    d = self.c.flags.setdefault('notes', {})
    d[key] = d.get(key, 0) + val


def exact_neq(a, b):
  sa, sb = vl._spsym(a), vl._spsym(b)
  if sa or sb:
    ors = []
    for k in vl.SP:
      x, y = sa.get(k, False), sb.get(k, False)
      ors.append(z3.Xor(gd.toz3(x), gd.toz3(y)))
    fin = z3.Not(gd.toz3(gd.bany(list(sa.values()))))
    d = vl.fadd(vl.F(vl._finite_terms(a)), vl.fneg(vl.F(vl._finite_terms(b))))
    return z3.Or(ors + [z3.And(fin, vl.zreal(d) != 0)])
  return vl.zreal(vl.fadd(a, vl.fneg(b))) != 0


class ConcreteEnv(BaseEnv):
  """Native execution on concrete inputs taken from a model (or a replay file)."""
  sym = False
  slack = Fraction(1, 2)
  double = False

  def __init__(self, inputs, seed=1, double=False):
    self.inp = inputs
    self.double = double
    self.fails = []
    self.seen = []
    self.seed = seed
    self.rnd = _random.Random(seed)

  # inputs that the symbolic run did not reach (it stopped early) get pseudo-random values
  def bits(self, name, n):
    if name not in self.inp: return [self.rnd.random() < 0.5 for _ in range(n)]
    return [bool(x) for x in self.inp[name]]

  def bvs(self, name, n, lo, hi):
    if name not in self.inp: return [self.rnd.randrange(lo, hi) for _ in range(n)]
    return [int(x) for x in self.inp[name]]

  ints = bvs

  def reals(self, name, shape, lo=None, hi=None):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    if name not in self.inp:
      a, b = (-4 if lo is None else lo), (4 if hi is None else hi)
      n = int(np.prod(shape))
      return from_flat([a + Fraction(self.rnd.randrange(0, 257), 256) * Fraction(b - a)
                        for _ in range(n)], shape)
    return from_flat([Fraction(x) for x in self.inp[name]], shape)

  def fracs(self, name, n):
    if name not in self.inp: return [Fraction(self.rnd.randrange(0, 256), 256) for _ in range(n)]
    return [Fraction(x) for x in self.inp[name]]

  def flag(self, name, value=True): pass

  def fork(self, name, options):
    return list(options)[self.inp.get(name, 0)]

  def fork_on(self, g): return bool(g)

  def assume(self, g):
    if not g:
      raise PathInfeasible('assumption violated in replay')

  def assume_bv(self, f): pass

  @contextmanager
  def spec(self):
    yield

  def T(self, data, dtype=torch.float32):
    f, s = flat_scalars(data)
    k = kind_of(dtype)
    f = [float(v) if k == 'f' else bool(v) if k == 'b' else int(v) for v in f]
    if self.double and dtype == torch.float32:
      dtype = torch.float64
    return torch.tensor(f, dtype=dtype).reshape(s)

  def V(self, t):
    f, s = flat_scalars(t)
    f = [vl.cnum(v) if isinstance(v, float) else v for v in f]
    return from_flat(f, s)

  def true(self, g, msg):
    self.seen.append((msg, [bool(g)]))
    if not g:
      self.fails.append((msg, 'condition is false'))

  def equal(self, actual, expected, msg):
    fa, sa = flat_scalars(actual)
    fb, sb = flat_scalars(expected)
    self.seen.append((msg, fa))
    if sa != sb:
      self.fails.append((msg, 'shape %s, expected %s' % (sa, sb)))
      return
    sc = max([1.0] + [abs(float(v)) for v in fb if isinstance(v, (int, float, Fraction))
                      and math.isfinite(float(v))]) if fb else 1.0
    anyf = any(isinstance(v, (float, Fraction)) for v in fa + fb)
    for i, (a, b) in enumerate(zip(fa, fb)):
      if not close(a, b, sc if anyf else 0):
        m = '%s [%s]' % (msg, ','.join(map(str, np.unravel_index(i, sa)))) if sa else msg
        self.fails.append((m, 'got %s, expected %s' % (fmt(a), fmt(b))))

  def fail(self, msg):
    self.fails.append((msg, 'failed'))

  def draws(self):
    return [vl.cnum(v) if isinstance(v, float) else v for d in self.random.seen for v in d]

  def note(self, key, val=1): pass


def fmt(v):
  return repr(float(v)) if isinstance(v, Fraction) else repr(v)


def close(a, b, scale):
  a, b = (float(a), float(b)) if scale else (a, b)
  if a != a or b != b:
    return a != a and b != b
  if a == b:
    return True
  if not scale or math.isinf(a) or math.isinf(b):
    return False
  return abs(a - b) <= RTOL * max(scale, 1.0)


# ------------------------------------------------------------ native running --
class NativeRandom(TorchDispatchMode):
  """feeds the recorded random draws of a symbolic run to the native run"""

  def __init__(self, draws):
    super().__init__()
    self.draws = list(draws)
    self.seen = []
    self.i = 0

  def __torch_dispatch__(self, func, types, args=(), kwargs=None):
    name = func._schema.name.split('::')[1]
    r = func(*args, **(kwargs or {}))
    if name in ('rand', 'rand_like', 'randint', 'randint_like', 'bernoulli', 'bernoulli_'):
      if self.i < len(self.draws):
        vals = self.draws[self.i]
        self.i += 1
        r.copy_(torch.tensor([float(v) for v in vals], dtype=torch.float64).reshape(r.shape))
      self.seen.append(r.detach().clone().reshape(-1).tolist())
    return r


def run_native(harness, cfg, inputs, draws=(), seed=1):
  """-> (status, env, info); status in ok / fail / exception / infeasible.

  A failure that disappears in double precision is a rounding artefact of the replay (the
  harnesses compare exact reals), not a violation."""
  r = run_native_(harness, cfg, inputs, draws, seed)
  if r[0] == 'fail' and all(w.startswith('got ') and '.' in w for _, w in r[2]):
    torch.set_default_dtype(torch.float64)
    try:
      r2 = run_native_(harness, cfg, inputs, draws, seed, True)
    finally:
      torch.set_default_dtype(torch.float32)
    if r2[0] == 'ok':
      return r2
  return r


def run_native_(harness, cfg, inputs, draws=(), seed=1, double=False):
  old = cx.ctx()
  cx.set_ctx(None)
  torch.manual_seed(seed)
  _random.seed(seed)
  np.random.seed(seed)
  env = ConcreteEnv(inputs, seed, double)
  torch.use_deterministic_algorithms(True, warn_only=True)
  try:
    with NativeRandom(draws) as env.random:
      try:
        harness(env, **cfg)
      except PathInfeasible:
        return 'infeasible', env, None
      except Exception as ex:
        tb = traceback.format_exc(limit=-8)
        return 'exception', env, ('%s: %s' % (type(ex).__name__, ex), tb)
  finally:
    torch.use_deterministic_algorithms(False)
    cx.set_ctx(old)
  if env.fails:
    return 'fail', env, env.fails
  return 'ok', env, None


# ----------------------------------------------------------- symbolic running --
class Tracer:
  """names of the ocnn functions executed (sys.monitoring)"""
  TOOL = 4

  def __init__(self, root):
    self.root, self.names = root, set()

  def __enter__(self):
    m = sys.monitoring
    try:
      m.use_tool_id(self.TOOL, 'symtorch')
    except ValueError:
      return self
    def start(code, off):
      if code.co_filename.startswith(self.root):
        self.names.add(code.co_filename[len(self.root):].lstrip('/') + ':' + code.co_qualname)
      return m.DISABLE
    m.register_callback(self.TOOL, m.events.PY_START, start)
    m.set_events(self.TOOL, m.events.PY_START)
    m.restart_events()
    return self

  def __exit__(self, *a):
    m = sys.monitoring
    m.set_events(self.TOOL, 0)
    m.register_callback(self.TOOL, m.events.PY_START, None)
    m.free_tool_id(self.TOOL)


def model_inputs(env, mdl):
  out = {}
  for name, (kind, xs) in env.inputs.items():
    if kind == 'bits': out[name] = [mdl.guard(x) for x in xs]
    elif kind in ('bvs', 'ints'): out[name] = [mdl.ival(x) for x in xs]
    elif kind == 'reals': out[name] = [mdl.feval(x) for x in xs]
    elif kind == 'fork': out[name] = xs
  draws = [[mdl.value(v) for v in p.flat] for _, p in env.c.flags.get('random', [])]
  return out, draws


def run_symbolic(harness, cfg, prefix=(), seed=1, deadline=None, timeout_ms=60000, tt_cap=16,
                 repo='/repo'):
  """Execute one path.  Returns a result dict."""
  t0 = time.time()
  c = Ctx(prefix, timeout_ms, tt_cap)
  c.flags['seed'] = seed
  c.deadline = deadline
  cx.set_ctx(c)
  torch.manual_seed(seed)
  _random.seed(seed)
  np.random.seed(seed)
  env = SymEnv(c)
  status, info = 'done', None
  res = {'prefix': list(prefix)}
  tracer = Tracer(repo)
  try:
    with tracer, patches(), FnMode(), SymMode():
      try:
        harness(env, **cfg)
      except PathInfeasible:
        status = 'infeasible'
      except Unsupported as ex:
        status, info = 'unsupported', '%s\n%s' % (ex, traceback.format_exc(limit=-6))
      except Deadline:
        status = 'deadline'
      except Exception as ex:
        status = 'exception'
        info = ('%s: %s' % (type(ex).__name__, ex), traceback.format_exc(limit=-18))
  finally:
    G.structural = False
  res['siblings'] = c.siblings
  res['trace'] = list(c.trace)
  res['functions'] = sorted(tracer.names)
  try:
    conclude(res, c, env, harness, cfg, status, info, seed)
  except Deadline:
    res['status'] = 'inconclusive'
    res['info'] = 'deadline'
  except Unsupported as ex:
    res['status'] = 'inconclusive'
    res['info'] = 'while concluding: %s' % ex
  res['stats'] = c.stats.as_dict()
  res['notes'] = c.flags.get('notes', {})
  res['wall'] = time.time() - t0
  cx.set_ctx(None)
  return res


def snap(c, env, q=None):
  """current model of the solver, with real inputs moved to values exact in float32"""
  m = c.last.model()
  eqs = []
  for kind, xs in env.inputs.values():
    if kind != 'reals': continue
    for f in xs.flat if hasattr(xs, "flat") else xs:
      a = vl.atom_by_id(next(iter(f.terms))[0])
      v = m.eval(a.z, model_completion=False)
      if z3.is_rational_value(v):
        d = v.denominator_as_long()
        if d & (d - 1) or d > 256:
          n = v.numerator_as_long() * 256 // d
          eqs.append(a.z == z3.RealVal(Fraction(n, 256)))
      elif z3.is_algebraic_value(v):
        return m
  if not eqs:
    return m
  ex = z3.And(eqs) if q is None else z3.And(q, *eqs)
  if c.check_obligation(ex) == z3.sat:
    return c.last.model()
  for i in range(len(eqs)):
    ex = eqs[i] if q is None else z3.And(q, eqs[i])
    if c.check_obligation(ex) == z3.sat:
      m = c.last.model()
      q = ex
  return m


def pinned(c, env, q):
  """models of q in which transcendental functions of single inputs have their true values"""
  gen = [Fraction(179, 256), Fraction(-281, 256), Fraction(589, 256), Fraction(75, 256), Fraction(-397, 256)]
  fns = [a for f in ('sin', 'cos', 'tanh', 'exp', 'log', 'sigmoid') for a in vl._atoms()['fn'].get(f, [])]
  single = {}
  for a in fns:
    t = a.args[0].terms
    if len(a.args) == 1 and len(t) == 1:
      (m, cs), = t.items()
      if len(m) == 1 and cs == {True: 1}:
        x = vl.atom_by_id(m[0])
        if x.fn is None: single.setdefault(x.id, (x, []))[1].append(a)
  if not single: return
  for s in range(4):
    eqs = []
    for i, (x, fs) in enumerate(single.values()):
      v = gen[(i + s) % len(gen)]
      if c.check_obligation(z3.And(x.z == z3.RealVal(v))) != z3.sat: v = -v
      eqs.append(x.z == z3.RealVal(v))
      eqs += [f.z == z3.RealVal(Fraction(vl._EVAL[f.fn](float(v)))) for f in fs]
    if c.check_obligation(z3.And(q, *eqs)) == z3.sat:
      yield c.last.model()


def native_from(env, harness, cfg, mdl, seed):
  inputs, draws = model_inputs(env, mdl)
  st, cenv, info = run_native(harness, cfg, inputs, draws, seed)
  return st, cenv, info, inputs, draws


def violation(res, inputs, draws, st, info):
  res['status'] = 'violation'
  res['inputs'] = {k: enc(v) for k, v in inputs.items()}
  res['draws'] = enc(draws)
  res['native'] = st
  if st == 'exception':
    res['detail'] = [['exception', info[0]]]
    res['traceback'] = info[1]
  else:
    res['detail'] = [[str(a), str(b)] for a, b in info[:12]]


def conclude(res, c, env, harness, cfg, status, info, seed):
  res['obligations'] = len(env.obl)
  res['syntactic'] = sum(1 for o in env.obl if o[1] is None)
  if status == 'infeasible':
    res['status'] = 'infeasible'
    return
  r = c.check()
  if r == z3.unsat:
    res['status'] = 'infeasible'
    return
  if r == z3.unknown:
    res['status'], res['info'] = 'inconclusive', 'path condition unknown'
    return
  # a witness of the path: run it natively
  m0 = snap(c, env)
  mdl = vl.Model(m0, seed=seed)
  st, cenv, ninfo, inputs, draws = native_from(env, harness, cfg, mdl, seed)
  if st in ('fail', 'exception'):
    violation(res, inputs, draws, st, ninfo)
    return
  if status in ('unsupported', 'deadline'):
    # sample a few more models of the path natively before giving up
    for s in range(2, 6):
      mdl = vl.Model(m0, seed=seed + s)
      st, cenv, ninfo, inputs, draws = native_from(env, harness, cfg, mdl, seed)
      if st in ('fail', 'exception'):
        violation(res, inputs, draws, st, ninfo)
        return
    res['status'], res['info'] = 'inconclusive', '%s: %s' % (status, info)
    return
  if status == 'exception':
    res['status'] = 'inconclusive'
    res['info'] = 'symbolic run raised but native did not: %s\n%s' % info
    return
  if st == 'infeasible':
    res['status'], res['info'] = 'inconclusive', 'witness rejected by native assumptions'
    return
  # encoding validation
  bad = validate(env, cenv, mdl)
  if bad and vl.define_lazy():
    # the path may rest on an uninterpreted comparison: decide it with its definition
    r = c.check()
    if r == z3.unsat:
      res['status'] = 'infeasible'
      return
    if r == z3.unknown:
      res['status'], res['info'] = 'inconclusive', 'path condition unknown'
      return
    mdl = vl.Model(snap(c, env), seed=seed)
    st, cenv, ninfo, inputs, draws = native_from(env, harness, cfg, mdl, seed)
    if st in ('fail', 'exception'):
      violation(res, inputs, draws, st, ninfo)
      return
    bad = 'native run ' + st if st != 'ok' else validate(env, cenv, mdl)
  if bad:
    res['status'], res['info'] = 'inconclusive', 'encoding mismatch: ' + bad
    return
  res['validated'] = 1
  res['compared'] = sum(len(f) for _, f in cenv.seen)
  res['sample'] = {k: enc(v) for k, v in list(inputs.items())[:6]}
  # discharge obligations
  todo = [o for o in env.obl if o[1] is not None]
  res['solver_obligations'] = len(todo)
  spurious = 0
  res['exact_queries'] = 0
  while todo:
    q = z3.Or([o[1] for o in todo]) if len(todo) > 1 else todo[0][1]
    r = c.check_obligation(q)
    if r == z3.unsat:
      break
    if r == z3.unknown:
      # split
      if len(todo) == 1:
        done = False
        if todo[0][2] is not None:
          res['exact_queries'] += 1
          done = c.check_obligation(todo[0][2]()) == z3.unsat
        if not done:
          res['status'], res['info'] = 'inconclusive', 'solver unknown: ' + todo[0][0]
          return
        break
      left = []
      for o in todo:
        r1 = c.check_obligation(o[1])
        if r1 == z3.unsat: continue
        if r1 == z3.unknown:
          if o[2] is not None:
            res['exact_queries'] += 1
            if c.check_obligation(o[2]()) == z3.unsat: continue
          res['status'], res['info'] = 'inconclusive', 'solver unknown: ' + o[0]
          return
        left.append(o)
      todo = left
      continue
    m = snap(c, env, q)
    # which obligations does the model break?
    for s in range(3):
      mdl = vl.Model(m, seed=seed + s, query=q)
      st, cenv, ninfo, inputs, draws = native_from(env, harness, cfg, mdl, seed)
      if st in ('fail', 'exception'):
        res['failed_obligation'] = next((o[0] for o in todo if z3.is_true(
            m.eval(o[1], model_completion=True))), '?')
        violation(res, inputs, draws, st, ninfo)
        return
    hit = [o for o in todo if z3.is_true(m.eval(o[1], model_completion=True))]
    if not hit:
      res['status'], res['info'] = 'inconclusive', 'model evaluation failed'
      return
    done = []
    for o in hit:
      if o[2] is None:
        if vl.define_lazy():
          break
        res['status'] = 'inconclusive'
        res['info'] = 'counterexample does not reproduce natively: ' + o[0]
        res['inputs'] = {k: enc(v) for k, v in inputs.items()}
        return
      res['exact_queries'] += 1
      zx = o[2]()
      r = c.check_obligation(zx)
      if r == z3.unsat:
        done.append(o)
        continue
      if r == z3.sat:
        mx = snap(c, env, zx)
        for s in range(3):
          mdl = vl.Model(mx, seed=seed + s, query=zx)
          st, cenv, ninfo, inputs, draws = native_from(env, harness, cfg, mdl, seed)
          if st in ('fail', 'exception'):
            res['failed_obligation'] = o[0]
            violation(res, inputs, draws, st, ninfo)
            return
        for mx in pinned(c, env, zx):
          mdl = vl.Model(mx, seed=seed, query=zx)
          st, cenv, ninfo, inputs, draws = native_from(env, harness, cfg, mdl, seed)
          if st in ('fail', 'exception'):
            res['failed_obligation'] = o[0]
            violation(res, inputs, draws, st, ninfo)
            return
        if vl.define_lazy():
          break
      res['status'] = 'inconclusive'
      res['info'] = 'exact query %s, no native reproduction: %s' % (r, o[0])
      res['inputs'] = {k: enc(v) for k, v in inputs.items()}
      return
    ids = set(map(id, done))
    todo = [o for o in todo if id(o) not in ids]
  res['status'] = 'ok'


def validate(env, cenv, mdl):
  """compare the symbolic values of asserted quantities with the native ones"""
  if len(env.seen) != len(cenv.seen):
    return 'different number of assertions %d / %d' % (len(env.seen), len(cenv.seen))
  for (m1, f1), (m2, f2) in zip(env.seen, cenv.seen):
    if m1 != m2 or len(f1) != len(f2):
      return 'assertion %s / %s' % (m1, m2)
    vs = [mdl.value(a) for a in f1]
    sc = 1.0
    fl = any(isinstance(v, (float, Fraction)) for v in vs) or \
        any(isinstance(v, float) for v in f2)
    if fl:
      sc = max([1.0] + [abs(float(v)) for v in vs if math.isfinite(float(v))])
    for i, (v, b) in enumerate(zip(vs, f2)):
      if not close(v, b, sc if fl else 0):
        return '%s #%d: symbolic %s, native %s' % (m1, i, fmt(v), fmt(b))
  return None


def project(n, m):
  """modules of the code under test"""
  import ocnn
  root = os.path.dirname(os.path.dirname(os.path.abspath(ocnn.__file__)))
  f = getattr(m, '__file__', None)
  return n == 'ocnn' or n.startswith('ocnn.') or \
      isinstance(f, str) and f.startswith(os.path.join(root, 'projects') + os.sep)


@contextmanager
def patches():
  """constructors that bypass the dispatcher with symbolic arguments"""
  import ocnn  # noqa
  from .lazy import tree_map_lazy, has_lazyint
  saved = {'from_numpy': torch.from_numpy}
  def from_numpy(a):
    if isinstance(a, SymNd): return a.t
    return saved['from_numpy'](a)
  torch.from_numpy = from_numpy
  def plain(f):
    def g(*a, **k):
      if has_lazyint(a) or has_lazyint(list(k.values())):
        a, k = tree_map_lazy(a, lambda z: z), tree_map_lazy(k, lambda z: z)
      return f(*a, **k)
    return g
  from .lazy import tree_lazies, call
  def lazily(f):
    def g(*a, **k):
      if tree_lazies((a, k), []): return call(f, a, k)
      return f(*a, **k)
    g.__name__ = f.__name__
    return g
  # overloads with a Scalar parameter: the built-in argument parser would take a Lazy for a tensor
  for n in ('where', 'pow', 'remainder', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
            'bitwise_left_shift', 'bitwise_right_shift', 'float_power', 'xlogy', 'fmod', 'mul',
            'add', 'sub', 'div', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'clamp', 'clip', 'floor_divide'):
    saved[n] = getattr(torch, n)
    setattr(torch, n, lazily(saved[n]))
  for n in ('arange', 'zeros', 'ones', 'full', 'empty', 'rand', 'eye', 'linspace', 'randint',
            'randn'):
    saved[n] = getattr(torch, n)
    setattr(torch, n, plain(saved[n]))
  def symbolic(x):
    return (isinstance(x, SymTensor) or type(x) is Lazy or
            isinstance(x, (list, tuple)) and any(symbolic(y) for y in x))
  def stack(x, dtype):
    if isinstance(x, (list, tuple)):
      return torch.stack([stack(y, dtype) for y in x])
    if isinstance(x, torch.Tensor):
      return x.to(dtype) if dtype is not None else x
    return saved['tensor'](x, dtype=dtype)
  saved['tensor'] = torch.tensor
  def tensor(data, *a, **k):
    if isinstance(data, (list, tuple)) and symbolic(data):
      dt = k.get('dtype')
      if dt is None:
        fl = []
        def leaves(x):
          for y in x:
            leaves(y) if isinstance(y, (list, tuple)) else fl.append(y)
        leaves(data)
        ds = [y.dtype if isinstance(y, torch.Tensor) else saved['tensor'](y).dtype for y in fl]
        dt = ds[0]
        for d in ds[1:]: dt = torch.promote_types(dt, d)
      return stack(data, dt)
    return saved['tensor'](data, *a, **k)
  torch.tensor = tensor
  real = torch.Tensor
  class Meta(type):
    def __instancecheck__(c, x): return isinstance(x, real)
    def __subclasscheck__(c, x): return issubclass(x, real)
    def __getattr__(c, n): return getattr(real, n)
    def __call__(c, *a, **k):
      if len(a) == 1 and isinstance(a[0], (list, tuple)) and symbolic(a[0]):
        return stack(a[0], torch.float32)
      return real(*a, **k)
  Fake = Meta('Tensor', (), {})
  class Proxy(types.ModuleType):
    Tensor = Fake
    def __getattr__(self, n): return getattr(torch, n)
  proxy, mods = Proxy('torch'), []
  for n, m in list(sys.modules.items()):
    if project(n, m) and getattr(m, 'torch', None) is torch:
      mods.append(m)
      m.torch = proxy
  torch.use_deterministic_algorithms(False)
  # torch.autograd.Function.apply (built in) takes only real tensors
  def real_args(f):
    return lambda *a, **k: f(*tree_map_lazy(a, lambda z: z.mat()),
                             **tree_map_lazy(k, lambda z: z.mat()))
  undo = []
  for n, m in list(sys.modules.items()):
    if not project(n, m): continue
    for k, v in list(vars(m).items()):
      if isinstance(v, types.BuiltinMethodType) and v.__name__ == 'apply':
        undo.append((m, k, v))
        setattr(m, k, real_args(v))
      elif isinstance(v, type) and issubclass(v, torch.autograd.Function) and 'apply' not in vars(v):
        undo.append((v, 'apply', None))
        v.apply = staticmethod(real_args(v.apply))
  try:
    yield
  finally:
    for o, k, v in undo:
      if v is None: delattr(o, k)
      else: setattr(o, k, v)
    for m in mods: m.torch = torch
    for n, f in saved.items():
      setattr(torch, n, f)
