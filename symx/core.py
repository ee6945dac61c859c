"""Symbolic scalars over z3 and path-exhaustive exploration by re-execution."""
import builtins
import math as _math
import time
from fractions import Fraction

import numpy as _np
import z3

INF = float("inf")
NAN = float("nan")


class PathEnd(BaseException):
  """The current path is infeasible (an assumption failed)."""


class Unsupported(BaseException):
  """The engine cannot follow the code symbolically here."""


class Violated(BaseException):
  """Raised to stop a path after a violated obligation."""


# ----------------------------------------------------------------- solver ---
class Stats:
  def __init__(self):
    self.queries = 0
    self.solver_s = 0.0
    self.unknown = 0
    self.decisions = 0
    self.proved = 0
    self.trivial = 0


_vars_cache = {}


def expr_vars(e):
  """Set of ids of the free constants of a z3 expression (cached)."""
  k = e.get_id()
  r = _vars_cache.get(k)
  if r is not None:
    return r[1]
  if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
    s = frozenset((k,))
  else:
    s = frozenset().union(*[expr_vars(c) for c in e.children()]) if e.num_args() else frozenset()
  if len(_vars_cache) > 400000:
    _vars_cache.clear()
  _vars_cache[k] = (e, s)
  return s


def to_z3(v):
  if isinstance(v, Fraction):
    return z3.RealVal(str(v.numerator) + "/" + str(v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)
  return z3.IntVal(v)


class Ex:
  """One exploration: decision trail, path condition, statistics."""
  cur = None

  def __init__(self, qtimeout_ms=10000, check_timeout_ms=60000, max_paths=200000, deadline=None, opts=None):
    self.qt = qtimeout_ms
    self.ct = check_timeout_ms
    self.max_paths = max_paths
    self.deadline = deadline
    self.stats = Stats()
    self.opts = opts or {}
    self.trail = []
    self._qcache = {}

  # -- path life cycle
  def begin(self):
    self.pc = []  # asserted z3 bools
    self.pcids = set()
    self.idx = 0
    self.model = None
    self.fresh_n = 0
    self.trans = {}
    self.inputs = {}
    self.ranges = {}
    self.maybe_infeasible = False
    self.unresolved = []
    self.notes = []
    self.printed = []  # symbolic values formatted as text, by index

  def fresh(self, name, sort="r"):
    self.fresh_n += 1
    n = f"{name}!{self.fresh_n}"
    return z3.Real(n) if sort == "r" else (z3.Int(n) if sort == "i" else z3.Bool(n))

  def add(self, c):
    """Assert a constraint on this path."""
    c = z3.simplify(c)
    if z3.is_true(c):
      return
    if c.get_id() in self.pcids:
      return
    self.pcids.add(c.get_id())
    self.pc.append(c)
    if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
      self.model = None

  def _slice(self, goal):
    """Constraints of the path condition connected to the goal."""
    todo = set(expr_vars(goal))
    rest = [(c, expr_vars(c)) for c in self.pc]
    out = []
    changed = True
    while changed:
      changed = False
      nr = []
      for c, vs in rest:
        if not vs or vs & todo:
          out.append(c)
          todo |= vs
          changed = True
        else:
          nr.append((c, vs))
      rest = nr
    return out

  def solve(self, constraints, timeout=None, want_model=False):
    """('sat'|'unsat'|'unknown', model)"""
    key = frozenset(c.get_id() for c in constraints)
    if not want_model and key in self._qcache:
      return self._qcache[key][0], None
    t0 = time.time()
    timeout = timeout or self.qt
    res, model = "unknown", None
    for strat, frac in (("default", 0.2), ("nra", 0.5), ("default", 1.0)):
      tm = int(max(200, timeout * frac))
      if strat == "default":
        s = z3.Solver()
      else:
        s = z3.SolverFor("QF_NRA")
      s.set("timeout", tm)
      s.add(*constraints)
      self.stats.queries += 1
      try:
        r = s.check()
      except z3.Z3Exception:
        continue
      if r == z3.unsat:
        res = "unsat"
        break
      if r == z3.sat:
        res = "sat"
        try:
          model = s.model()
        except z3.Z3Exception:
          model = None
        break
    self.stats.solver_s += time.time() - t0
    if res == "unknown":
      self.stats.unknown += 1
    else:
      if len(self._qcache) > 200000:
        self._qcache.clear()
      self._qcache[key] = (res, list(constraints))
    return res, model

  def linear_unsat(self, cs):
    """Whether a linear relaxation (every monomial of the reduced normal form is
    an independent unknown, even ones non-negative) is already unsatisfiable."""
    from . import linear
    key = ("lin", frozenset(c.get_id() for c in cs))
    if key not in self._qcache:
      t0 = time.time()
      self.stats.queries += 1
      self._qcache[key] = (linear.unsat(cs), list(cs))
      self.stats.solver_s += time.time() - t0
    return self._qcache[key][0]

  def feasible(self, cond):
    cs = self._slice(cond) + [cond]
    if self.opts.get("lin") and self.linear_unsat(cs):
      return "unsat"
    r, m = self.solve(cs)
    return r

  def full_model(self, extra=(), timeout=None):
    r, m = self.solve(self.pc + list(extra), timeout=timeout, want_model=True)
    return (r, m)

  def branch(self, cond):
    """Decide a symbolic condition, forking the exploration."""
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    if self.deadline and time.time() > self.deadline:
      raise TimeoutError("exploration deadline")
    ncond = z3.Not(cond)
    if cond.get_id() in self.pcids:
      return True
    ncs = z3.simplify(ncond)
    if ncs.get_id() in self.pcids:
      return False
    if self.idx < len(self.trail):
      d = self.trail[self.idx][0]
      self.idx += 1
      self.add(cond if d else ncond)
      return d
    # new decision
    self.stats.decisions += 1
    ft = self.feasible(cond)
    ff = self.feasible(ncond)
    if ft == "unsat" and ff == "unsat":
      raise PathEnd()
    if ft == "unsat":
      d, other = False, False
    elif ff == "unsat":
      d, other = True, False
    else:
      d, other = True, True
      if ft == "unknown" or ff == "unknown":
        self.maybe_infeasible = True
    self.trail.append([d, other])
    self.idx += 1
    self.add(cond if d else ncond)
    return d

  def next_trail(self):
    """Backtrack: returns False when the exploration is complete."""
    while self.trail and not self.trail[-1][1]:
      self.trail.pop()
    if not self.trail:
      return False
    last = self.trail[-1]
    self.trail[-1] = [not last[0], False] + last[2:]
    return True


def ex():
  if Ex.cur is None:
    raise Unsupported("no exploration active")
  return Ex.cur


# ---------------------------------------------------------------- scalars ---
class SB:
  """Symbolic boolean."""
  __slots__ = ("e",)
  __array_priority__ = 1e6
  ndim = 0
  shape = ()
  size = 1
  dtype = _np.dtype(bool)

  def __init__(self, e):
    self.e = e

  def __bool__(self):
    return ex().branch(self.e)

  def __and__(self, o):
    o = lift_bool(o)
    return mk_bool(z3.And(self.e, o.e)) if isinstance(o, SB) else (self if o else False)

  __rand__ = __and__

  def __or__(self, o):
    o = lift_bool(o)
    return mk_bool(z3.Or(self.e, o.e)) if isinstance(o, SB) else (True if o else self)

  __ror__ = __or__

  def __xor__(self, o):
    o = lift_bool(o)
    return mk_bool(z3.Xor(self.e, o.e)) if isinstance(o, SB) else (~self if o else self)

  __rxor__ = __xor__

  def __invert__(self):
    return mk_bool(z3.Not(self.e))

  def num(self):
    return S(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), True)

  def __eq__(self, o):
    if isinstance(o, (bool, _np.bool_, SB)):
      o = lift_bool(o)
      return mk_bool(self.e == o.e) if isinstance(o, SB) else (self if o else ~self)
    return self.num() == o

  def __ne__(self, o):
    r = self == o
    return ~r if isinstance(r, SB) else not r

  __hash__ = None

  def __int__(self):
    return int(bool(self))

  __index__ = __int__

  def __float__(self):
    return float(bool(self))

  def __repr__(self):
    return "<symbool>"

  def item(self):
    return self

  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    from . import arr
    return arr.array_ufunc(ufunc, method, inputs, kw)

  def __array_function__(self, func, types, args, kwargs):
    from . import arr
    return arr.array_function(func, args, kwargs)


def _sbnum(name):
  def f(self, *a):
    return getattr(self.num(), name)(*a)
  f.__name__ = name
  return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "rfloordiv", "mod",
           "rmod", "pow", "rpow", "neg", "pos", "abs", "lt", "le", "gt", "ge"):
  setattr(SB, f"__{_n}__", _sbnum(f"__{_n}__"))


def mk_bool(e):
  e = z3.simplify(e)
  if z3.is_true(e):
    return True
  if z3.is_false(e):
    return False
  return SB(e)


def lift_bool(x):
  if isinstance(x, SB):
    return x
  if isinstance(x, S):
    r = x != 0
    return r
  return bool(x)


def bexpr(x):
  """z3 Bool of a (symbolic or concrete) boolean"""
  x = lift_bool(x)
  return x.e if isinstance(x, SB) else z3.BoolVal(x)


def is_special(x):
  return isinstance(x, float) and (x != x or x in (INF, -INF))


def frac(x):
  """Exact rational standing for a python/numpy number (decimal reading)."""
  if isinstance(x, Fraction):
    return x
  if isinstance(x, (int, _np.integer)):
    return Fraction(int(x))
  return Fraction(repr(float(x)))


def lift(x, py=True):
  """python/numpy scalar -> S, C, SB/bool or special float"""
  if isinstance(x, (S, SB, C)):
    return x
  if isinstance(x, (bool, _np.bool_)):
    return bool(x)
  if isinstance(x, (int, _np.integer)):
    return S(int(x), True, py and isinstance(x, int))
  if isinstance(x, (float, _np.floating)):
    f = float(x)
    if f != f or f in (INF, -INF):
      return f
    return S(frac(x), False, py and not isinstance(x, _np.floating))
  if isinstance(x, Fraction):
    return S(x, False, py)
  if isinstance(x, (complex, _np.complexfloating)):
    return C(lift(float(x.real)), lift(float(x.imag)))
  if isinstance(x, _np.ndarray) and x.ndim == 0:
    return lift(x[()])
  return NotImplemented


def num(x):
  """as lift, but booleans become integers"""
  x = lift(x)
  if isinstance(x, bool):
    return S(int(x), True)
  if isinstance(x, SB):
    return x.num()
  return x


def _floor(v):
  """integer part of a real term; common factors are cancelled and integer terms
  taken out first (denominators are non-zero on the path)"""
  from . import poly
  try:
    p = poly.norm(v)
  except (ZeroDivisionError, OverflowError):
    return z3.ToInt(v)
  if len(p) > 12 or any(n < 0 for m in p for _, n in m):
    return z3.ToInt(v)
  whole, rest = [], {}
  for m, c in p.items():
    if c.denominator == 1 and all(poly._atoms[k].sort() == z3.IntSort() for k, _ in m):
      t = z3.IntVal(int(c))
      for k, n in m:
        for _ in range(n):
          t = t * poly._atoms[k]
      whole.append(t)
    else:
      rest[m] = c
  r = poly.const(rest)
  if r is not None:
    whole.append(z3.IntVal(_math.floor(r)))
  else:
    whole.append(z3.ToInt(poly.to_expr(rest)))
  return z3.Sum(whole) if len(whole) > 1 else whole[0]


class SymText(str):
  """a number as text: float() gives the number back"""


class S:
  """Symbolic (or exact constant) real or integer scalar."""
  __slots__ = ("v", "i", "py")
  __array_priority__ = 1e6
  ndim = 0
  shape = ()
  size = 1

  def __init__(self, v, i, py=False):
    # v: int / Fraction constant, or z3 ArithRef
    if isinstance(v, Fraction) and i:
      v = int(v)
    elif isinstance(v, int) and not i:
      v = Fraction(v)
    self.v = v
    self.i = i
    self.py = py

  # -- helpers
  @property
  def const(self):
    return not isinstance(self.v, z3.ExprRef)

  @property
  def e(self):
    return to_z3(self.v) if self.const else self.v

  @property
  def r(self):
    """z3 real expression"""
    if self.const:
      return to_z3(Fraction(self.v))
    return z3.ToReal(self.v) if self.i else self.v

  @property
  def dtype(self):
    return _np.dtype(int if self.i else float)

  @property
  def real(self):
    return self

  @property
  def imag(self):
    return S(0, self.i)

  def conjugate(self):
    return self

  conj = conjugate

  @property
  def T(self):
    return self

  def __repr__(self):
    if self.const:
      return repr(float(self.v)) if not self.i else repr(self.v)
    return "<sym>"

  def __str__(self):
    if self.const:
      return self.__repr__()
    t = SymText("<sym>")
    t._sym_float_ = lambda: self
    return t

  def __format__(self, spec):
    if self.const:
      return format(int(self.v) if self.i else float(self.v), spec)
    if Ex.cur is None:
      return "<sym>"
    Ex.cur.printed.append(self)
    return f"<sym{len(Ex.cur.printed) - 1}>"

  def item(self):
    return self

  def tolist(self):
    return self

  def copy(self):
    return self

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self

  def __reduce__(self):
    if self.const:
      return (S, (self.v, self.i, self.py))
    raise Unsupported("pickling a symbolic value")

  def astype(self, dt, **kw):
    from . import arr
    return arr.cast_scalar(self, arr.ndtype(dt))

  def __hash__(self):
    if self.const:
      return hash(self.v)
    raise Unsupported("hash of symbolic value")

  # -- conversions
  def __bool__(self):
    r = self != 0
    return bool(r)

  def _conc_int(self):
    if self.const:
      return int(self.v)
    x = self if self.i else self.trunc()
    if x.const:
      return int(x.v)
    E = ex()
    k = 0
    while True:
      # a replayed decision has its value recorded in the trail
      if E.idx < len(E.trail) and len(E.trail[E.idx]) > 2:
        val = E.trail[E.idx][2]
        d = E.trail[E.idx][0]
        E.idx += 1
        c = x.v == val
        E.add(c if d else z3.Not(c))
        if d:
          return val
        k += 1
        continue
      cs = [c for c in E._slice(x.v == 0)]
      r, m = E.solve(cs, want_model=True)
      if r == "unsat":
        raise PathEnd()
      if r != "sat" or m is None:
        raise Unsupported("cannot enumerate integer")
      val = m.eval(x.v, model_completion=True).as_long()
      k += 1
      if k > E.opts.get("max_conc", 80):
        raise Unsupported("integer with too many values")
      c = x.v == val
      other = E.feasible(z3.Not(c)) != "unsat"
      E.trail.append([True, other, val])
      E.stats.decisions += 1
      E.idx += 1
      E.add(c)
      return val

  def __index__(self):
    if not self.i:
      raise TypeError("'float' object cannot be interpreted as an integer")
    return self._conc_int()

  def __int__(self):
    return self._conc_int()

  def __float__(self):
    if self.const:
      return float(self.v)
    if self.i:
      return float(self._conc_int())
    raise Unsupported("float() of symbolic value")

  def __complex__(self):
    return complex(float(self))

  def __floor__(self):
    if self.const:
      return S(_math.floor(self.v), True, self.py)
    return self if self.i else S(_floor(self.v), True, self.py)

  def __ceil__(self):
    if self.const:
      return S(_math.ceil(self.v), True, self.py)
    return self if self.i else S(-_floor(-self.v), True, self.py)

  def trunc(self):
    if self.const:
      return S(_math.trunc(self.v), True, self.py)
    if self.i:
      return self
    return S(z3.If(self.v >= 0, z3.ToInt(self.v), -z3.ToInt(-self.v)), True, self.py)

  __trunc__ = trunc

  def rint(self):
    """round half to even, as an integer"""
    if self.const:
      return S(round(self.v), True, self.py)
    if self.i:
      return self
    f = z3.ToInt(self.v)
    d = self.v - z3.ToReal(f)
    return S(z3.If(d < z3.RealVal("1/2"), f, z3.If(d > z3.RealVal("1/2"), f + 1,
                                                   z3.If(f % 2 == 0, f, f + 1))), True, self.py)

  def __round__(self, nd=None):
    if nd is None:
      return self.rint()
    k = Fraction(10)**int(nd)
    return (self * S(k, False)).rint() / S(k, False)

  def is_integer(self):
    if self.const:
      return Fraction(self.v).denominator == 1
    return True if self.i else mk_bool(z3.IsInt(self.v))

  def bit_length(self):
    """bit length of a non-negative bounded symbolic integer"""
    if self.const:
      return int(self.v).bit_length()
    E = ex()
    n = 0
    a = abs(self)
    while n <= 64:
      if bool(a < (1 << n)):
        return n
      n += 1
    raise Unsupported("bit_length too large")

  # -- arithmetic
  def _o(self, o):
    if isinstance(o, (SB, bool)):
      return num(o)
    return lift(o)

  def __add__(self, o):
    o = self._o(o)
    if not isinstance(o, S):
      return _binspecial("add", self, o)
    if self.const and o.const:
      return S(self.v + o.v, self.i and o.i, self.py and o.py)
    if o.const and o.v == 0 and (o.i or not self.i):
      return self
    if self.const and self.v == 0 and (self.i or not o.i):
      return o
    i = self.i and o.i
    return S(self.e + o.e if i else self.r + o.r, i, self.py and o.py)

  def __radd__(self, o):
    o = self._o(o)
    return NotImplemented if o is NotImplemented else (o + self if isinstance(o, (S, C)) else _binspecial("add", o, self))

  def __neg__(self):
    return S(-self.v, self.i, self.py)

  def __pos__(self):
    return self

  def __sub__(self, o):
    o = self._o(o)
    if not isinstance(o, S):
      return _binspecial("sub", self, o)
    if self.const and o.const:
      return S(self.v - o.v, self.i and o.i, self.py and o.py)
    if o.const and o.v == 0 and (o.i or not self.i):
      return self
    i = self.i and o.i
    return S(self.e - o.e if i else self.r - o.r, i, self.py and o.py)

  def __rsub__(self, o):
    o = self._o(o)
    return NotImplemented if o is NotImplemented else (o - self if isinstance(o, (S, C)) else _binspecial("sub", o, self))

  def __mul__(self, o):
    o = self._o(o)
    if not isinstance(o, S):
      return _binspecial("mul", self, o)
    if self.const and o.const:
      return S(self.v * o.v, self.i and o.i, self.py and o.py)
    i = self.i and o.i
    for a, b in ((self, o), (o, self)):
      if a.const and a.v == 0:
        return S(0, i, self.py and o.py)
      if a.const and a.v == 1 and (a.i or not b.i):
        return S(b.v, b.i, self.py and o.py)
    return S(self.e * o.e if i else self.r * o.r, i, self.py and o.py)

  def __rmul__(self, o):
    o = self._o(o)
    return NotImplemented if o is NotImplemented else (o * self if isinstance(o, (S, C)) else _binspecial("mul", o, self))

  def __truediv__(self, o):
    o = self._o(o)
    if not isinstance(o, S):
      return _binspecial("div", self, o)
    py = self.py and o.py
    if o.const:
      if o.v != 0:
        if self.const:
          return S(Fraction(self.v) / Fraction(o.v), False, py)
        return S(self.r * to_z3(1 / Fraction(o.v)), False, py)
      zero = True
    else:
      zero = bool(o == 0)
    if zero:
      if py:
        raise ZeroDivisionError("division by zero")
      if bool(self == 0):
        return NAN
      return INF if bool(self > 0) else -INF
    if self.const and self.v == 0:
      return S(0, False, py)
    return S(self.r / o.r, False, py)

  def __rtruediv__(self, o):
    o = self._o(o)
    return NotImplemented if o is NotImplemented else (o / self if isinstance(o, (S, C)) else _binspecial("div", o, self))

  def __floordiv__(self, o):
    o = self._o(o)
    if not isinstance(o, S):
      return _binspecial("floordiv", self, o)
    py = self.py and o.py
    if bool(o == 0):
      if py:
        raise ZeroDivisionError("integer division or modulo by zero")
      if self.i and o.i:
        return S(0, True)
      return self / o
    if self.const and o.const:
      q = _math.floor(Fraction(self.v) / Fraction(o.v))
      return S(q, self.i and o.i, py)
    if self.i and o.i:
      if o.const and o.v > 0:
        return S(self.e / o.e, True, py)
      pos = bool(o > 0)
      return S((self.e / o.e) if pos else ((-self.e) / (-o.e)), True, py)
    return S(z3.ToReal(z3.ToInt((self / o).r)), False, py)

  def __rfloordiv__(self, o):
    o = self._o(o)
    return NotImplemented if o is NotImplemented else o // self

  def __mod__(self, o):
    o = self._o(o)
    if not isinstance(o, S):
      return _binspecial("mod", self, o)
    if bool(o == 0):
      if self.py and o.py:
        raise ZeroDivisionError("modulo by zero")
      return S(0, True) if (self.i and o.i) else NAN
    return self - (self // o) * o

  def __rmod__(self, o):
    o = self._o(o)
    return NotImplemented if o is NotImplemented else o % self

  def __divmod__(self, o):
    return self // o, self % o

  def __pow__(self, o, mod=None):
    o = self._o(o)
    if not isinstance(o, S):
      return _binspecial("pow", self, o)
    if o.const:
      if Fraction(o.v).denominator == 1 and abs(o.v) <= 16:
        n = int(o.v)
        if self.const:
          if n < 0 and self.v == 0:
            if self.py and o.py:
              raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            return INF
          return S(Fraction(self.v)**n if (n < 0 or not self.i) else self.v**n, self.i and o.i and n >= 0, self.py and o.py)
        r = S(1, self.i and o.i, self.py and o.py)
        for _ in range(abs(n)):
          r = r * self
        if n == 0:
          return S(1, self.i and o.i, self.py and o.py)
        return r if n > 0 else S(1, False) / r
      if o.v == Fraction(1, 2):
        from . import trans
        return trans.sqrt(self)
    from . import trans
    if self.const:
      return trans.powc(self, o)
    if self.i and o.i:
      return self**S(o._conc_int(), True, o.py)
    return trans.pow_general(self, o)

  def __rpow__(self, o, mod=None):
    o = self._o(o)
    return NotImplemented if o is NotImplemented else o**self

  def __lshift__(self, o):
    return self * (2**int(o))

  def __rlshift__(self, o):
    return o << self._conc_int()

  def __rshift__(self, o):
    return self // (2**int(o))

  def __rrshift__(self, o):
    return o >> self._conc_int()

  def __and__(self, o):
    return self._conc_int() & int(o)

  __rand__ = __and__

  def __or__(self, o):
    return self._conc_int() | int(o)

  __ror__ = __or__

  def __abs__(self):
    if self.const:
      return S(abs(self.v), self.i, self.py)
    if ex().opts.get("mono"):
      return self if bool(self >= 0) else -self
    return S(z3.If(self.v >= 0, self.v, -self.v), self.i, self.py)

  # -- comparisons
  def _cmp(self, o, f, name):
    o = self._o(o)
    if isinstance(o, C):
      return getattr(C(self, S(0, True)), name)(o)
    if isinstance(o, float):  # special
      return getattr(0.0, name)(o)
    if not isinstance(o, S):
      return NotImplemented
    if self.const and o.const:
      return bool(f(self.v, o.v))
    if self.i and o.i:
      return mk_bool(f(self.e, o.e))
    return mk_bool(f(self.r, o.r))

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b, "__lt__")

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b, "__le__")

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b, "__gt__")

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b, "__ge__")

  def __eq__(self, o):
    if o is None or isinstance(o, (str, tuple, list, dict)):
      return False
    return self._cmp(o, lambda a, b: a == b, "__eq__")

  def __ne__(self, o):
    if o is None or isinstance(o, (str, tuple, list, dict)):
      return True
    return self._cmp(o, lambda a, b: a != b, "__ne__")

  # -- numpy protocols
  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    from . import arr
    return arr.array_ufunc(ufunc, method, inputs, kw)

  def __array_function__(self, func, types, args, kwargs):
    from . import arr
    return arr.array_function(func, args, kwargs)

  # ndarray-like conveniences on scalars
  def _as0(self):
    from . import arr
    return arr.asarray(self)

  def __getitem__(self, k):
    if k == () or k is Ellipsis:
      return self
    raise TypeError("'float' object is not subscriptable")

  def flatten(self):
    return self._as0().reshape(-1)

  ravel = flatten

  def reshape(self, *a):
    return self._as0().reshape(*a)

  def sum(self, *a, **k):
    return self

  mean = max = min = squeeze = sum

  def any(self):
    return self != 0

  all = any


def _special(op, a, b):
  """float op on concrete python floats with numpy semantics"""
  with _np.errstate(all="ignore"):
    a, b = _np.float64(a), _np.float64(b)
    return float({"add": _np.add, "sub": _np.subtract, "mul": _np.multiply, "div": _np.true_divide,
                  "floordiv": _np.floor_divide, "mod": _np.mod, "pow": _np.power}[op](a, b))


def sign_of(x):
  """concrete sign (forks)"""
  if isinstance(x, float):
    return 0 if x != x else (1 if x > 0 else -1)
  if bool(x > 0):
    return 1
  return 0 if bool(x == 0) else -1


def _binspecial(op, a, b):
  """binary operation where at least one side is a special float or complex"""
  if a is NotImplemented or b is NotImplemented:
    return NotImplemented
  if isinstance(a, (bool, SB)):
    a = num(a)
  if isinstance(b, (bool, SB)):
    b = num(b)
  if isinstance(a, C) or isinstance(b, C):
    a = a if isinstance(a, C) else C(a, S(0, True))
    b = b if isinstance(b, C) else C(b, S(0, True))
    return {"add": C.__add__, "sub": C.__sub__, "mul": C.__mul__, "div": C.__truediv__,
            "pow": C.__pow__}[op](a, b)
  if isinstance(a, float) and isinstance(b, float):
    return _special(op, a, b)
  if isinstance(a, float) and a != a:
    return NAN
  if isinstance(b, float) and b != b:
    return NAN
  if op in ("add", "sub"):
    if isinstance(a, float):
      return a
    return b if op == "add" else -b
  if op == "mul":
    s = a if isinstance(a, S) else b
    i = a if isinstance(a, float) else b
    sg = sign_of(s)
    return NAN if sg == 0 else (i if sg > 0 else -i)
  if op == "div":
    if isinstance(b, float):
      return S(0, False)
    sg = sign_of(b)
    return a if sg >= 0 else -a
  if op == "pow":
    s = a if isinstance(a, S) else b
    if s.const:
      return lift(_special("pow", float(a), float(b)))
    if isinstance(b, float):  # S ** inf
      raise Unsupported("pow with infinity")
    sg = sign_of(b)
    return S(1, False) if sg == 0 else (INF if sg > 0 else S(0, False))
  if op in ("floordiv", "mod"):
    raise Unsupported(op + " with infinity")
  raise Unsupported(op)


def sadd(a, b):
  a, b = num(a), num(b)
  return a + b if isinstance(a, (S, C)) else _binspecial("add", a, b)


def ssub(a, b):
  a, b = num(a), num(b)
  return a - b if isinstance(a, (S, C)) else _binspecial("sub", a, b)


def smul(a, b):
  a, b = num(a), num(b)
  return a * b if isinstance(a, (S, C)) else _binspecial("mul", a, b)


def sdiv(a, b):
  a, b = num(a), num(b)
  return a / b if isinstance(a, (S, C)) else _binspecial("div", a, b)


class C:
  """Symbolic complex number (re, im: S or special float)."""
  __slots__ = ("re", "im")
  __array_priority__ = 1e6
  ndim = 0
  shape = ()
  size = 1
  dtype = _np.dtype(complex)

  def __init__(self, re, im):
    self.re, self.im = num(re), num(im)

  @property
  def real(self):
    return self.re

  @property
  def imag(self):
    return self.im

  def _o(self, o):
    o = num(o)
    if o is NotImplemented:
      return o
    return o if isinstance(o, C) else C(o, S(0, True))

  def __add__(self, o):
    o = self._o(o)
    return C(sadd(self.re, o.re), sadd(self.im, o.im))

  __radd__ = __add__

  def __neg__(self):
    return C(-self.re, -self.im)

  def __sub__(self, o):
    return self + (-self._o(o))

  def __rsub__(self, o):
    return self._o(o) + (-self)

  def __mul__(self, o):
    o = self._o(o)
    return C(ssub(smul(self.re, o.re), smul(self.im, o.im)), sadd(smul(self.re, o.im), smul(self.im, o.re)))

  __rmul__ = __mul__

  def __truediv__(self, o):
    o = self._o(o)
    if isinstance(o.im, S) and o.im.const and o.im.v == 0:
      return C(sdiv(self.re, o.re), sdiv(self.im, o.re))
    d = sadd(smul(o.re, o.re), smul(o.im, o.im))
    n = self * o.conjugate()
    return C(sdiv(n.re, d), sdiv(n.im, d))

  def __rtruediv__(self, o):
    return self._o(o) / self

  def __pow__(self, o, mod=None):
    n = int(o)
    r = C(1, 0)
    for _ in range(n):
      r = r * self
    return r

  def conjugate(self):
    return C(self.re, -self.im)

  conj = conjugate

  def __abs__(self):
    from . import trans
    if isinstance(self.im, S) and self.im.const and self.im.v == 0:
      return abs(self.re)
    return trans.sqrt(sadd(smul(self.re, self.re), smul(self.im, self.im)))

  def __eq__(self, o):
    o = self._o(o)
    if o is NotImplemented:
      return False
    return s_and(seq(self.re, o.re), seq(self.im, o.im))

  def __ne__(self, o):
    return s_not(self == o)

  __hash__ = None

  def __bool__(self):
    return bool(self != 0)

  def __complex__(self):
    return complex(float(self.re), float(self.im))

  def __repr__(self):
    return "<symcomplex>"

  def item(self):
    return self

  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    from . import arr
    return arr.array_ufunc(ufunc, method, inputs, kw)

  def __array_function__(self, func, types, args, kwargs):
    from . import arr
    return arr.array_function(func, args, kwargs)


# ---------------------------------------------------- generic bool helpers ---
def seq(a, b):
  a, b = num(a), num(b)
  if isinstance(a, float):
    return a == b if isinstance(b, float) else False
  r = a == b
  return r


def s_not(x):
  x = lift_bool(x)
  return ~x if isinstance(x, SB) else (not x)


def s_and(*xs):
  es = []
  for x in xs:
    x = lift_bool(x)
    if isinstance(x, SB):
      es.append(x.e)
    elif not x:
      return False
  return mk_bool(z3.And(*es)) if es else True


def s_or(*xs):
  es = []
  for x in xs:
    x = lift_bool(x)
    if isinstance(x, SB):
      es.append(x.e)
    elif x:
      return True
  return mk_bool(z3.Or(*es)) if es else False


def s_ite(c, a, b):
  c = lift_bool(c)
  if not isinstance(c, SB):
    return a if c else b
  if ex().opts.get("mono") and not isinstance(lift(a), (bool, SB)):
    return a if bool(c) else b
  la, lb = lift(a), lift(b)
  if isinstance(la, (bool, SB)) and isinstance(lb, (bool, SB)):
    return mk_bool(z3.If(c.e, bexpr(la), bexpr(lb)))
  la, lb = num(la), num(lb)
  if isinstance(la, C) or isinstance(lb, C):
    la = la if isinstance(la, C) else C(la, 0)
    lb = lb if isinstance(lb, C) else C(lb, 0)
    return C(s_ite(c, la.re, lb.re), s_ite(c, la.im, lb.im))
  if isinstance(la, S) and isinstance(lb, S):
    if la.i and lb.i:
      return S(z3.If(c.e, la.e, lb.e), True)
    if la.const and lb.const and la.v == lb.v:
      return la
    return S(z3.If(c.e, la.r, lb.r), False)
  if isinstance(la, float) and isinstance(lb, float) and (la == lb or (la != la and lb != lb)):
    return la
  return a if bool(c) else b


def smax(a, b):
  """numpy maximum of two scalars (nan propagates)"""
  a, b = num(a), num(b)
  if isinstance(a, float) or isinstance(b, float):
    for x in (a, b):
      if isinstance(x, float) and x != x:
        return NAN
    return a if bool(a >= b) else b
  if isinstance(a, C) or isinstance(b, C):
    raise Unsupported("complex maximum")
  return s_ite(a >= b, a, b)


def smin(a, b):
  a, b = num(a), num(b)
  if isinstance(a, float) or isinstance(b, float):
    for x in (a, b):
      if isinstance(x, float) and x != x:
        return NAN
    return a if bool(a <= b) else b
  if isinstance(a, C) or isinstance(b, C):
    raise Unsupported("complex minimum")
  return s_ite(a <= b, a, b)
