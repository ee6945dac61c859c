"""Harness context, symbolic and concrete flavours with the same interface."""
import contextlib
import importlib
import math

_scripts = {}


class AssumeFailed(BaseException):
  pass


class CheckFailed(Exception):
  """a checked condition does not hold (concrete run)"""


class Base:
  symbolic = False

  def __init__(self):
    self._names = {}
    self._patches = []
    self.covers = set()
    self.n_checks = 0

  def _name(self, n):
    k = self._names.get(n, 0)
    self._names[n] = k + 1
    return n if k == 0 else f"{n}#{k}"

  def reals(self, name, n, lo=None, hi=None):
    return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

  def ints(self, name, n, lo=None, hi=None):
    return [self.int(f"{name}{i}", lo, hi) for i in range(n)]

  def bools(self, name, n):
    return [self.bool(f"{name}{i}") for i in range(n)]

  def mod(self, name):
    return importlib.import_module(name)

  def script(self, rel):
    """a stand-alone script of the repository as a module"""
    import os
    repo = os.environ.get("SYMX_REPO", "/repo")
    if rel not in _scripts:
      if self.symbolic:
        from . import env
        _scripts[rel] = env.load_script(os.path.join(repo, rel), os.path.basename(rel)[:-3])
      else:
        import importlib.util
        spec = importlib.util.spec_from_file_location("repo_script_" + os.path.basename(rel)[:-3], os.path.join(repo, rel))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _scripts[rel] = m
    return _scripts[rel]

  def cover(self, label):
    self.covers.add(label)

  def patch(self, obj, attr, value):
    """replace an attribute for the rest of this run"""
    had = attr in getattr(obj, "__dict__", {})
    self._patches.append((obj, attr, getattr(obj, attr, None), had))
    setattr(obj, attr, value)

  def undo(self):
    for obj, attr, old, had in reversed(self._patches):
      if had:
        setattr(obj, attr, old)
      else:
        with contextlib.suppress(AttributeError):
          delattr(obj, attr)
    self._patches.clear()

  def raises(self, fn, *exc):
    """call fn: (result, None) or (None, exception) for the given types"""
    try:
      return fn(), None
    except exc or Exception as e:  # pylint: disable=W0706
      return None, e

  def shown(self, text, want, msg=""):
    """the text is the number, up to the precision with which it is printed"""
    t = str(text).strip()
    self.shown_as(t, want, max(0, len(t) - t.index(".") - 1) if "." in t else 0, msg)

  def shown_as(self, t, want, decimals, msg):
    try:
      v = float(t)
    except ValueError:
      self.check(False, msg + " (not a number)")
      return
    self.check(abs(v - want) <= 0.500001 * 10.0**-decimals + 1e-9 * abs(v), msg)

  def implies(self, a, b, msg=""):
    self.check(self.Or(self.Not(a), b), msg)

  def le(self, a, b, msg="", tol=1e-9):
    """a <= b up to rounding"""
    self.check(a <= b + self._slack(a, b, tol), msg)

  def lt(self, a, b, msg=""):
    self.check(a < b, msg)


class Concrete(Base):
  symbolic = False

  def __init__(self, inputs):
    super().__init__()
    import numpy
    self.np = numpy
    self.inputs = inputs
    self.failures = []

  def _get(self, n, default):
    return self.inputs.get(n, default)

  def real(self, name, lo=None, hi=None):
    n = self._name(name)
    v = float(self._get(n, lo if lo is not None else (hi if hi is not None else 0)))
    if (lo is not None and v < lo) or (hi is not None and v > hi):
      raise AssumeFailed(n)
    return v

  def npreal(self, name, lo=None, hi=None):
    return self.np.float64(self.real(name, lo, hi))

  def int(self, name, lo=None, hi=None):
    n = self._name(name)
    v = int(self._get(n, lo if lo is not None else (hi if hi is not None else 0)))
    if (lo is not None and v < lo) or (hi is not None and v > hi):
      raise AssumeFailed(n)
    return v

  def bool(self, name):
    return bool(self._get(self._name(name), False))

  def choice(self, name, options):
    i = int(self._get(self._name(name), 0))
    if not 0 <= i < len(options):
      raise AssumeFailed(name)
    return options[i]

  def arr(self, x, dtype=None):
    return self.np.array(x, dtype=dtype) if dtype is not None or len(x) else self.np.array(x, dtype=float)

  def assume(self, c):
    if not c:
      raise AssumeFailed()

  def check(self, c, msg=""):
    self.n_checks += 1
    if not (c if not isinstance(c, self.np.ndarray) else c.all()):
      self.failures.append(str(msg))

  def _slack(self, a, b, tol):
    return tol * (1 + abs(a) + abs(b))

  def fail(self, msg):
    self.failures.append(str(msg))

  def eq(self, a, b, msg="", tol=1e-6):
    self.n_checks += 1
    np = self.np
    if a is None or b is None:
      if a is not b:
        self.failures.append(f"{msg}: {a!r} != {b!r}")
      return
    try:
      a_, b_ = np.asarray(a), np.asarray(b)
      if a_.shape != b_.shape:
        self.failures.append(f"{msg}: shapes {a_.shape} != {b_.shape}")
        return
      if a_.dtype.kind in "OUS" or b_.dtype.kind in "OUS":
        ok = bool(np.all(a_ == b_))
      elif a_.dtype.kind == "c" or b_.dtype.kind == "c":
        ok = bool(np.all(np.abs(a_ - b_) <= tol * (1 + np.abs(a_) + np.abs(b_))))
      else:
        with np.errstate(all="ignore"):
          x, y = a_.astype(float), b_.astype(float)
          ok = bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol *
                                                                    (1 + np.abs(x) + np.abs(y)))))
    except (TypeError, ValueError) as e:
      self.failures.append(f"{msg}: not comparable ({e})")
      return
    if not ok:
      self.failures.append(f"{msg}: {a!r} != {b!r}"[:400])

  def same(self, a, b, msg=""):
    """exact equality (nan equals nan)"""
    self.eq(a, b, msg, tol=0)

  def And(self, *xs):
    return all(bool(x) for x in xs)

  def Or(self, *xs):
    return any(bool(x) for x in xs)

  def Not(self, x):
    return not x

  def ite(self, c, a, b):
    return a if c else b

  def isnan(self, x):
    return isinstance(x, float) and x != x or bool(self.np.isnan(x))

  def isfinite(self, x):
    return bool(self.np.isfinite(x))

  def fn(self, name):
    return {"exp": math.exp, "log": math.log, "sqrt": math.sqrt, "cos": math.cos, "sin": math.sin,
            "log10": math.log10, "log2": math.log2, "arctan": math.atan, "arcsinh": math.asinh, "sinh": math.sinh,
            "atan2": math.atan2, "db2a": lambda d: 10.0**(d / 20.0), "a2db": lambda a: 20.0 * math.log10(a),
            "floor": math.floor, "ceil": math.ceil}[name]

  def pick(self, x):
    return x


class Symbolic(Base):
  symbolic = True

  def __init__(self, E, on_check):
    super().__init__()
    from . import arr, core, env, trans
    import z3
    self.E, self._on_check = E, on_check
    self._c, self._a, self._t, self.z3 = core, arr, trans, z3
    self.np = env.NP

  def real(self, name, lo=None, hi=None, py=True):
    n = self._name(name)
    v = self.z3.Real("in_" + n)
    self.E.inputs[n] = ("r", v)
    self.E.ranges[n] = (lo, hi)
    s = self._c.S(v, False, py)
    for c in ((lo is not None) and (s >= lo), (hi is not None) and (s <= hi)):
      if c is not False:
        self.E.add(self._c.bexpr(c))
    return s

  def npreal(self, name, lo=None, hi=None):
    return self.real(name, lo, hi, py=False)

  def int(self, name, lo=None, hi=None):
    n = self._name(name)
    v = self.z3.Int("in_" + n)
    self.E.inputs[n] = ("i", v)
    self.E.ranges[n] = (lo, hi)
    s = self._c.S(v, True, True)
    for c in ((lo is not None) and (s >= lo), (hi is not None) and (s <= hi)):
      if c is not False:
        self.E.add(self._c.bexpr(c))
    return s

  def bool(self, name):
    n = self._name(name)
    v = self.z3.Bool("in_" + n)
    self.E.inputs[n] = ("b", v)
    return self._c.SB(v)

  def choice(self, name, options):
    n = self._name(name)
    v = self.z3.Int("in_" + n)
    self.E.inputs[n] = ("i", v)
    s = self._c.S(v, True, True)
    self.E.add(self.z3.And(v >= 0, v < len(options)))
    for i in range(len(options) - 1):
      if bool(s == i):
        return options[i]
    return options[-1]

  def arr(self, x, dtype=None):
    r = self._a.asarray(x, dtype)
    return r.copy() if r is x else r

  def assume(self, c):
    e = self._c.bexpr(c)
    self.E.add(e)
    if self.z3.is_false(self.z3.simplify(e)) or self.E.feasible(self.z3.BoolVal(True) if self.z3.is_true(e) else e) == "unsat":
      raise self._c.PathEnd()

  def check(self, c, msg=""):
    self.n_checks += 1
    if isinstance(c, self._a.SymArray):
      c = c.all()
    self._on_check(self, self._c.lift_bool(c), msg)

  def fail(self, msg):
    self.n_checks += 1
    self._on_check(self, False, msg)

  def _slack(self, a, b, tol):
    return 0

  def shown_as(self, t, want, decimals, msg):
    import re
    m = re.fullmatch(r"<sym(\d+)>", t)
    if m is None:
      super().shown_as(t, want, decimals, msg)
    else:
      self.eq(self.E.printed[int(m.group(1))], want, msg)

  def eq(self, a, b, msg="", tol=1e-6):
    self.n_checks += 1
    if a is None or b is None:
      if a is not b:
        self._on_check(self, False, msg)
      return
    A = self._a
    if isinstance(a, (str, bool)) and isinstance(b, (str, bool)):
      self._on_check(self, a == b, msg)
      return
    try:
      x, y = A.asarray(a), A.asarray(b)
    except ValueError:
      self._on_check(self, False, msg + " (ragged)")
      return
    if x.shape != y.shape:
      self._on_check(self, False, f"{msg}: shapes {x.shape} != {y.shape}")
      return
    for i, (u, v) in enumerate(zip(A.plain(x).ravel(), A.plain(y).ravel())):
      self._eq1(u, v, f"{msg}[{i}]" if x.ndim else msg, tol)

  def _eq1(self, u, v, msg, tol):
    c = self._c
    lu, lv = c.lift(u), c.lift(v)
    if lu is NotImplemented or lv is NotImplemented:
      self._on_check(self, bool(u == v), msg)
      return
    if isinstance(lu, (bool, c.SB)) and isinstance(lv, (bool, c.SB)):
      self._on_check(self, c.mk_bool(c.bexpr(lu) == c.bexpr(lv)), msg)
      return
    lu, lv = c.num(lu), c.num(lv)
    if isinstance(lu, c.C) or isinstance(lv, c.C):
      lu = lu if isinstance(lu, c.C) else c.C(lu, 0)
      lv = lv if isinstance(lv, c.C) else c.C(lv, 0)
      self._eq1(lu.re, lv.re, msg + ".re", tol)
      self._eq1(lu.im, lv.im, msg + ".im", tol)
      return
    if isinstance(lu, float) or isinstance(lv, float):
      if isinstance(lu, float) and isinstance(lv, float) and (lu == lv or (lu != lu and lv != lv)):
        self._on_check(self, True, msg)
      else:
        self._on_check(self, False, msg)
      return
    self._on_check(self, (lu, lv, tol), msg)

  def same(self, a, b, msg=""):
    self.eq(a, b, msg, tol=0)

  def And(self, *xs):
    return self._c.s_and(*xs)

  def Or(self, *xs):
    return self._c.s_or(*xs)

  def Not(self, x):
    return self._c.s_not(x)

  def ite(self, c, a, b):
    return self._c.s_ite(c, a, b)

  def isnan(self, x):
    return self._a.k_isnan(x)

  def isfinite(self, x):
    return self._a.k_isfinite(x)

  def fn(self, name):
    t, c = self._t, self._c
    d = {"exp": t.exp, "log": t.log, "sqrt": t.sqrt, "cos": t.cos, "sin": t.sin, "log10": t.log10, "log2": t.log2,
         "arctan": t.arctan, "arcsinh": t.arcsinh, "sinh": t.sinh, "atan2": t.arctan2,
         "db2a": lambda d: t.powc(c.S(10, False), c.sdiv(d, 20)), "a2db": lambda a: c.smul(20, t.log10(a)),
         "floor": lambda x: c.num(x).__floor__(), "ceil": lambda x: c.num(x).__ceil__()}
    return d[name]
