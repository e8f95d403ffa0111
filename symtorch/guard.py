"""Boolean guards: a hash-consed And/Or/Not DAG over named atoms.

A guard is a Python bool or a B node.  Atoms are either free Boolean inputs or
theory atoms (z3 comparisons).  The first TT_CAP atoms also carry a bit-parallel
truth table which is only used to simplify guards while the program runs (prune
guards that are constant under the path condition, merge equal ones); every
final verdict is a z3 query over the DAG (see ctx.py).
"""
import z3


class B:
  __slots__ = ('op', 'args', 'tt', 'id', 'z', 'name')

  def __repr__(self):
    if self.op == 'atom':
      return self.name
    return '%s(%s)' % (self.op, ','.join(map(repr, self.args)))

  def __and__(self, o): return band(self, o)
  def __rand__(self, o): return band(self, o)
  def __or__(self, o): return bor(self, o)
  def __ror__(self, o): return bor(self, o)
  def __xor__(self, o): return bxor(self, o)
  def __rxor__(self, o): return bxor(self, o)
  def __invert__(self): return bnot(self)

  def __bool__(self):
    raise TypeError('symbolic guard used as a Python bool')


class _G:
  pass


G = _G()
G.TT_CAP = 16
G.next_id = 0
G.atoms = {}       # name -> B
G.zatoms = {}      # z3 ast id -> (expr, B)
G.natt = 0         # atoms with a truth table index
G.mask = 1
G.width = 1
G.patterns = []
G.care = 1
G.cons = {}        # structural interning (reset per path)
G.ttcons = {}      # truth table interning (reset per path)
G.tt_only_free = True
G.structural = False


def reset_all(cap=16):
  G.TT_CAP = cap
  G.atoms.clear()
  G.zatoms.clear()
  G.natt = 0
  G.width = 1 << cap
  G.mask = (1 << G.width) - 1
  G.patterns = []
  for i in range(cap):
    half = 1 << i
    block = ((1 << half) - 1) << half       # low half 0, high half 1
    pat, w = block, 2 * half
    while w < G.width:
      pat |= pat << w
      w *= 2
    G.patterns.append(pat)
  reset_path()


def reset_path():
  G.cons.clear()
  G.ttcons.clear()
  G.care = G.mask
  for b in G.atoms.values():
    if b.tt is not None:
      G.ttcons[b.tt] = b
  for _, b in G.zatoms.values():
    if b.tt is not None:
      G.ttcons[b.tt] = b


def rekey():
  """the care set shrank: guards that agree on it are now equal"""
  old = sorted(G.ttcons.values(), key=lambda n: n.id)
  G.ttcons.clear()
  for n in old:
    G.ttcons.setdefault(n.tt & G.care, n)


def _new(op, args, tt):
  n = B()
  n.op, n.args, n.tt, n.z, n.name = op, args, tt, None, None
  n.id = G.next_id
  G.next_id += 1
  return n


def _new_atom(name, z):
  tt = None
  if G.natt < G.TT_CAP:
    tt = G.patterns[G.natt]
    G.natt += 1
  n = _new('atom', (), tt)
  n.name, n.z = name, z
  if tt is not None:
    G.ttcons[tt & G.care] = n
  return n


def atom(name):
  n = G.atoms.get(name)
  if n is None:
    n = _new_atom(name, z3.Bool(name))
    G.atoms[name] = n
  return n


def zatom(expr):
  """Guard for a z3 Bool expression (theory atom)."""
  expr = z3.simplify(expr)
  if z3.is_true(expr):
    return True
  if z3.is_false(expr):
    return False
  neg = False
  if z3.is_not(expr):
    expr, neg = expr.arg(0), True
  k = expr.get_id()
  e = G.zatoms.get(k)
  if e is None:
    G.tt_only_free = False
    n = _new_atom('?%d' % k, expr)
    G.zatoms[k] = (expr, n)
  else:
    n = e[1]
  return bnot(n) if neg else n


def _intern(op, args, tt):
  if G.structural:
    key = (op,) + tuple(a.id for a in args)
    n = G.cons.get(key)
    if n is None:
      n = _new(op, args, None)
      G.cons[key] = n
    return n
  if tt is not None:
    c = tt & G.care
    if c == 0:
      return False
    if c == G.care:
      return True
    n = G.ttcons.get(c)
    if n is None:
      n = _new(op, args, c)
      G.ttcons[c] = n
    return n
  key = (op,) + tuple(a.id for a in args)
  n = G.cons.get(key)
  if n is None:
    n = _new(op, args, None)
    G.cons[key] = n
  return n


def bnot(a):
  if a is True:
    return False
  if a is False:
    return True
  if not isinstance(a, B):
    return not a
  if a.op == 'not':
    return a.args[0]
  if G.structural or a.tt is None:
    return _intern('not', (a,), None)
  return _intern('not', (a,), G.mask & ~a.tt)


def band(a, b):
  if a is False or b is False:
    return False
  if a is True:
    return b
  if b is True:
    return a
  if a is b:
    return a
  if not isinstance(a, B):
    return b if a else False
  if not isinstance(b, B):
    return a if b else False
  if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
    return False
  tt = None if (a.tt is None or b.tt is None) else a.tt & b.tt
  if tt is None:
    # absorption: a & (a & x), a & (a | x)
    if b.op == 'and' and (b.args[0] is a or b.args[1] is a):
      return b
    if a.op == 'and' and (a.args[0] is b or a.args[1] is b):
      return a
    if b.op == 'or' and (b.args[0] is a or b.args[1] is a):
      return a
    if a.op == 'or' and (a.args[0] is b or a.args[1] is b):
      return b
  if a.id > b.id:
    a, b = b, a
  return _intern('and', (a, b), tt)


def bor(a, b):
  if a is True or b is True:
    return True
  if a is False:
    return b
  if b is False:
    return a
  if a is b:
    return a
  if not isinstance(a, B):
    return True if a else b
  if not isinstance(b, B):
    return True if b else a
  if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
    return True
  tt = None if (a.tt is None or b.tt is None) else a.tt | b.tt
  if tt is None:
    if b.op == 'or' and (b.args[0] is a or b.args[1] is a):
      return b
    if a.op == 'or' and (a.args[0] is b or a.args[1] is b):
      return a
    if b.op == 'and' and (b.args[0] is a or b.args[1] is a):
      return a
    if a.op == 'and' and (a.args[0] is b or a.args[1] is b):
      return b
    # (x & y) | (x & ~y) -> x
    if a.op == 'and' and b.op == 'and':
      for i in (0, 1):
        for j in (0, 1):
          if a.args[i] is b.args[j]:
            p, q = a.args[1 - i], b.args[1 - j]
            if (p.op == 'not' and p.args[0] is q) or (q.op == 'not' and q.args[0] is p):
              return a.args[i]
  if a.id > b.id:
    a, b = b, a
  return _intern('or', (a, b), tt)


def bxor(a, b):
  return bor(band(a, bnot(b)), band(bnot(a), b))


def biff(a, b):
  return bnot(bxor(a, b))


def bite(c, a, b):
  if c is True:
    return a
  if c is False:
    return b
  return bor(band(c, a), band(bnot(c), b))


def ball(xs):
  r = True
  for x in xs:
    r = band(r, x)
    if r is False:
      return r
  return r


def bany(xs):
  r = False
  for x in xs:
    r = bor(r, x)
    if r is True:
      return r
  return r


def toz3(a):
  if a is True or a is False:
    return z3.BoolVal(a)
  if not isinstance(a, B):
    return z3.BoolVal(bool(a))
  if a.z is not None:
    return a.z
  stack = [a]
  while stack:
    n = stack[-1]
    if n.z is not None:
      stack.pop()
      continue
    todo = [x for x in n.args if x.z is None]
    if todo:
      stack.extend(todo)
      continue
    if n.op == 'not':
      n.z = z3.Not(n.args[0].z)
    elif n.op == 'and':
      n.z = z3.And(n.args[0].z, n.args[1].z)
    else:
      n.z = z3.Or(n.args[0].z, n.args[1].z)
    stack.pop()
  return a.z


def support(nodes):
  """Atoms reachable from the nodes."""
  seen, out, stack = set(), [], [n for n in nodes if isinstance(n, B)]
  while stack:
    n = stack.pop()
    if n.id in seen:
      continue
    seen.add(n.id)
    if n.op == 'atom':
      out.append(n)
    else:
      stack.extend(n.args)
  return out


def evaluate(a, val, memo):
  """Evaluate a guard; val(atom_node) -> bool."""
  if a is True or a is False:
    return a
  if not isinstance(a, B):
    return bool(a)
  stack = [a]
  while stack:
    n = stack[-1]
    if n.id in memo:
      stack.pop()
      continue
    if n.op == 'atom':
      memo[n.id] = val(n)
      stack.pop()
      continue
    todo = [x for x in n.args if x.id not in memo]
    if todo:
      stack.extend(todo)
      continue
    v = [memo[x.id] for x in n.args]
    memo[n.id] = (not v[0]) if n.op == 'not' else \
        (v[0] and v[1]) if n.op == 'and' else (v[0] or v[1])
    stack.pop()
  return memo[a.id]
