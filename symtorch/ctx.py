"""Path exploration context: path condition, forking, solver queries, models."""
import time
import z3
from . import guard as gd
from .guard import G, B, band, bnot, toz3


class Unsupported(BaseException):
  """The engine has no encoding for something the code did."""


class PathInfeasible(BaseException):
  """The current path condition became unsatisfiable."""


class Deadline(BaseException):
  """The time budget of this path ran out."""


class Stats:
  def __init__(self):
    self.queries = 0
    self.solver_s = 0.0
    self.obligations = 0
    self.unknown = 0
    self.ops = 0
    self.forks = 0
    self.tt_feas = 0

  def as_dict(self):
    return dict(self.__dict__)


class Ctx:

  def __init__(self, prefix=(), timeout_ms=60000, tt_cap=16):
    gd.reset_all(tt_cap)
    self.prefix = list(prefix)
    self.trace = []          # chosen alternative index per decision
    self.siblings = []       # prefixes of feasible alternatives not taken
    self.pc = []             # B guards
    self.pcz = []            # raw z3 constraints
    self.extra_theory = False
    self.domain, self.keep = set(), []
    self.last = None
    self.stats = Stats()
    self.solver = z3.Solver()
    self.solver.set('timeout', timeout_ms)
    self.timeout_ms = timeout_ms
    self.real_atoms = {}     # see value.py
    self.flags = {}
    self.deadline = None

  # -- path condition -------------------------------------------------------
  def assume(self, g):
    if g is True:
      return
    if g is False:
      raise PathInfeasible()
    if not isinstance(g, B):
      if not g:
        raise PathInfeasible()
      return
    self.pc.append(g)
    self.solver.add(toz3(g))
    if g.tt is not None:
      old = G.care
      G.care &= g.tt
      if G.care == 0:
        raise PathInfeasible()
      if G.care != old:
        gd.rekey()
    elif g.op == 'and':
      pass

  def assume_z3(self, e):
    """Constraint on theory variables."""
    self.pcz.append(e)
    self.solver.add(e)
    self.extra_theory = True

  def assume_domain(self, e):
    """Satisfiable constraint on one fresh real variable: it cannot affect Boolean queries"""
    self.pcz.append(e)
    self.solver.add(e)
    self.domain.add(e.get_id())
    self.keep.append(e)

  def check(self, *zs):
    t = time.time()
    if self.deadline is not None and t > self.deadline:
      raise Deadline('deadline')
    self.last = self.solver
    r = self.solver.check(*zs)
    self.stats.queries += 1
    self.stats.solver_s += time.time() - t
    if r == z3.unknown:
      self.stats.unknown += 1
    return r

  def check_obligation(self, q):
    """like check; Boolean and pseudo-Boolean queries go to z3's SAT solver"""
    if not self.extra_theory:
      g = z3.Goal()
      hard = [a for a in self.solver.assertions() if a.get_id() not in self.domain]
      g.add(hard)
      g.add(q)
      if z3.Probe('num-consts')(g) == 0:
        t = time.time()
        if self.deadline is not None and t > self.deadline:
          raise Deadline('deadline')
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'sat').solver()
        s.set('timeout', self.timeout_ms)
        s.add(hard)
        s.add(q)
        r = s.check()
        if r == z3.sat and self.domain:
          return self.check(q)
        self.last = s
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
          self.stats.unknown += 1
        return r
    return self.check(q)

  def _tt_exact(self, g):
    return (g.tt is not None and G.tt_only_free and not self.extra_theory
            and all(p.tt is not None for p in self.pc))

  def feasible(self, g):
    """Can g hold under the path condition?  unknown counts as feasible."""
    if g is True:
      return True
    if g is False:
      return False
    if g.tt is not None:
      if g.tt & G.care == 0:
        return False
      if self._tt_exact(g):
        self.stats.tt_feas += 1
        return True
    return self.check(toz3(g)) != z3.unsat

  def valid(self, g):
    return not self.feasible(bnot(g))

  # -- forking --------------------------------------------------------------
  def choose(self, options):
    """options: list of (value, guard); takes one feasible alternative."""
    options = [(v, g) for v, g in options if g is not False]
    if len(options) == 1 and options[0][1] is True:
      return options[0][0]
    pos = len(self.trace)
    if pos < len(self.prefix):
      i = self.prefix[pos]
      self.trace.append(i)
      v, g = options[i]
      self.assume(g)
      return v
    feas = [i for i, (v, g) in enumerate(options) if self.feasible(g)]
    if not feas:
      raise PathInfeasible()
    for i in feas[1:]:
      self.siblings.append(self.trace + [i])
    self.stats.forks += len(feas) - 1
    i = feas[0]
    self.trace.append(i)
    self.assume(options[i][1])
    return options[i][0]

  def decide(self, g):
    if g is True or g is False:
      return g
    if not isinstance(g, B):
      return bool(g)
    return self.choose([(True, g), (False, bnot(g))])

  def fork(self, n, label=''):
    """Pure harness choice among n alternatives (no guard)."""
    pos = len(self.trace)
    if pos < len(self.prefix):
      i = self.prefix[pos]
      self.trace.append(i)
      return i
    for i in range(1, n):
      self.siblings.append(self.trace + [i])
    self.stats.forks += n - 1
    self.trace.append(0)
    return 0


CTX = None


def set_ctx(c):
  global CTX
  CTX = c


def ctx():
  return CTX
