"""Symbolic execution environment: loads sample.* against numpy/math proxies."""
import ast
import builtins
import contextlib
import importlib
import importlib.machinery
import math
import os
import sys
import types

import numpy as np

from . import arr, stubs, trans
from .core import (C, Ex, INF, NAN, S, SB, Unsupported, frac, is_special, lift, lift_bool, num)

REPO = os.environ.get("SYMX_REPO", "/repo")


# ----------------------------------------------------------- shadow builtins
def _is_symval(x):
  return isinstance(x, (S, SB, C, arr.SymArray)) or hasattr(x, "_sym_float_")


class _IntMeta(type):
  def __call__(cls, *a, **k):
    if a and _is_symval(a[0]):
      x = a[0]
      if hasattr(x, "_sym_int_"):
        return x._sym_int_()
      if isinstance(x, arr.SymArray):
        x = x._one()
      x = num(x)
      if isinstance(x, C):
        raise TypeError("can't convert complex to int")
      if isinstance(x, float):
        return builtins.int(x)  # raises as python does
      t = x.trunc()
      return S(t.v, True, True)
    return builtins.int(*a, **k)

  def __instancecheck__(cls, x):
    return builtins.isinstance(x, builtins.int) or (builtins.isinstance(x, S) and x.i and x.py)

  def __subclasscheck__(cls, c):
    return issubclass(c, builtins.int)

  def __eq__(cls, o):
    return o is cls or o is builtins.int

  def __hash__(cls):
    return hash(builtins.int)


class _FloatMeta(type):
  def __call__(cls, *a, **k):
    if a and _is_symval(a[0]):
      x = a[0]
      if hasattr(x, "_sym_float_"):
        return x._sym_float_()
      if isinstance(x, arr.SymArray):
        x = x._one()
      x = num(x)
      if isinstance(x, C):
        raise TypeError("can't convert complex to float")
      if isinstance(x, float):
        return x
      return S(frac(x.v) if x.const else x.r, False, True)
    return builtins.float(*a, **k)

  def __instancecheck__(cls, x):
    return builtins.isinstance(x, builtins.float) or (builtins.isinstance(x, S) and not x.i)

  def __subclasscheck__(cls, c):
    return issubclass(c, builtins.float)

  def __eq__(cls, o):
    return o is cls or o is builtins.float

  def __hash__(cls):
    return hash(builtins.float)


class ShadowInt(builtins.int, metaclass=_IntMeta):
  pass


class ShadowFloat(builtins.float, metaclass=_FloatMeta):
  pass


class _ComplexMeta(type):
  def __call__(cls, *a, **k):
    if any(_is_symval(x) for x in a):
      re = num(a[0])
      im = num(a[1]) if len(a) > 1 else S(0, False)
      if isinstance(re, C):
        return re
      return C(re, im)
    return builtins.complex(*a, **k)

  def __instancecheck__(cls, x):
    return builtins.isinstance(x, (builtins.complex, C))

  def __eq__(cls, o):
    return o is cls or o is builtins.complex

  def __hash__(cls):
    return hash(builtins.complex)


class ShadowComplex(builtins.complex, metaclass=_ComplexMeta):
  pass


arr.SHADOW[ShadowInt] = int
arr.SHADOW[ShadowFloat] = float
arr.SHADOW[ShadowComplex] = complex


def _npmeta(real):
  class M(type):
    def __call__(cls, *a, **k):
      if a and arr.has_sym(a[0]):
        if isinstance(a[0], arr.SymArray) and a[0].ndim or isinstance(a[0], (list, tuple)):
          return arr.asarray(a[0]).astype(real)
        x = a[0]._one() if isinstance(a[0], arr.SymArray) else a[0]
        return arr.npscalar(arr.cast_scalar(x, np.dtype(real)))
      return real(*a, **k)

    def __instancecheck__(cls, x):
      if builtins.isinstance(x, real):
        return True
      if builtins.isinstance(x, (S, SB, C)):
        return issubclass(np.dtype(real).type, x.dtype.type) and not getattr(x, "py", False)
      return False

    def __eq__(cls, o):
      return o is cls or o is real

    def __hash__(cls):
      return hash(real)
  return M


NPTYPES = {}
for _n in ("float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64",
           "intp", "complex128", "complex64"):
  _r = getattr(np, _n)
  try:
    _c = _npmeta(_r)("np_" + _n, (_r,), {})
  except TypeError:
    continue
  NPTYPES[_n] = _c
  arr.SHADOW[_c] = _r
NPTYPES["double"] = NPTYPES["float64"]
NPTYPES["float_"] = NPTYPES["float64"]
NPTYPES["int_"] = NPTYPES["int64"]


# --------------------------------------------------------------- numpy proxy
def _unshadow(x):
  """dtype-like arguments: shadow types to real ones"""
  if isinstance(x, type):
    return arr.SHADOW.get(x, x)
  return x


class UF:
  """stand-in for a numpy ufunc"""

  def __init__(self, u):
    self._u = u
    self.__name__ = u.__name__
    self.nin, self.nout, self.identity = u.nin, u.nout, u.identity

  def _run(self, method, args, kw):
    args = tuple(_unshadow(a) for a in args)
    kw = {k: _unshadow(v) for k, v in kw.items()}
    if method == "__call__" and len(args) > self.nin:
      kw["out"] = args[self.nin]
      args = args[:self.nin]
    if any(arr.has_sym(a) or hasattr(a, "_sym_array_") for a in args) or any(arr.has_sym(v) for v in kw.values()):
      return arr.array_ufunc(self._u, method, args, kw)
    return arr.back(getattr(self._u, method)(*args, **kw))

  def __call__(self, *a, **k):
    return self._run("__call__", a, k)

  def reduce(self, *a, **k):
    if len(a) > 1:
      k["axis"] = a[1]
      a = a[:1]
    k.setdefault("axis", 0)
    return self._run("reduce", a, k)

  def accumulate(self, *a, **k):
    return self._run("accumulate", a, k)

  def outer(self, *a, **k):
    return self._run("outer", a, k)

  def at(self, *a, **k):
    return self._run("at", a, k)

  def __repr__(self):
    return f"<symbolic ufunc {self.__name__}>"

  def __eq__(self, o):
    return o is self or o is self._u

  def __hash__(self):
    return hash(self._u)

  def __reduce__(self):
    return (getattr, (np, self.__name__))


class FN:
  """stand-in for a numpy function"""

  def __init__(self, f):
    self._f = f
    self.__name__ = getattr(f, "__name__", repr(f))
    self.__doc__ = getattr(f, "__doc__", None)
    self.__module__ = getattr(f, "__module__", None)

  def __call__(self, *a, **k):
    a = tuple(_unshadow(x) for x in a)
    k = {n: _unshadow(v) for n, v in k.items()}
    if any(arr.has_sym(x) or hasattr(x, "_sym_array_") for x in a) or any(arr.has_sym(v) for v in k.values()):
      return arr.array_function(self._f, a, k)
    return arr.back(self._f(*a, **k))

  def __repr__(self):
    return f"<symbolic numpy function {self.__name__}>"

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __eq__(self, o):
    return o is self or o is self._f

  def __hash__(self):
    return hash(self._f)


def np_array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
  dt = None if dtype is None else arr.ndtype(dtype)
  src = x
  r = arr.asarray(list(x) if isinstance(x, tuple) and arr.has_sym(x) else x, dt)
  if copy and (r is src or (isinstance(src, np.ndarray) and np.may_share_memory(arr.plain(r), np.ndarray.view(src, np.ndarray)))):
    r = r.copy()
  while r.ndim < ndmin:
    r = r.reshape((1,) + r.shape)
  return r


def np_asarray(x, dtype=None, *a, **k):
  return arr.asarray(x, None if dtype is None else dtype)


def np_vectorize(f, **k):
  def g(*args):
    ops = np.broadcast_arrays(*[arr._obj(arr._norm_in(x)) for x in args])
    r = np.empty(ops[0].shape, dtype=object)
    for idx in np.ndindex(*r.shape):
      r[idx] = f(*[arr.npscalar(o[idx]) for o in ops])
    dt = arr._infer(list(r.ravel()))
    if not r.shape:
      return r[()]
    return arr.asarray(list(r.ravel())).astype(dt).reshape(r.shape)
  return g


def np_fromiter(it, dtype=float, count=-1, **k):
  return arr.asarray(list(it)).astype(_unshadow(dtype))


def np_hamming(n):
  return arr.back(np.hamming(int(n)))


class _DtypeMeta(type):
  def __call__(cls, x=None, *a, **k):
    return np.dtype(_unshadow(x), *a, **k)

  def __instancecheck__(cls, x):
    return isinstance(x, np.dtype)


class DtypeProxy(metaclass=_DtypeMeta):
  pass


def np_finfo(t):
  if isinstance(t, (S, arr.SymArray)):
    t = t.dtype
  return np.finfo(_unshadow(t))


def np_iinfo(t):
  if isinstance(t, (S, arr.SymArray)):
    t = t.dtype
  return np.iinfo(_unshadow(t))


def np_issubdtype(a, b):
  return np.issubdtype(_unshadow(a), _unshadow(b))


def np_copy(a, order="K", subok=False):
  return arr.asarray(a).copy()


def np_ndindex(*s):
  return np.ndindex(*[int(i) if not isinstance(i, tuple) else i for i in s])


def np_errstate(**k):
  return np.errstate(**k)


OVERRIDE = {
    "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray, "ascontiguousarray": np_asarray,
    "asfarray": lambda x, dtype=float: arr.asarray(x, dtype), "zeros": arr.zeros, "ones": arr.ones, "full": arr.full,
    "empty": arr.empty, "arange": arr.arange, "linspace": arr.linspace, "empty_like": arr._like(arr.empty),
    "zeros_like": arr._like(arr.zeros), "ones_like": arr._like(arr.ones),
    "full_like": arr._like(lambda s, v, dtype=None: arr.full(s, v, dtype)), "vectorize": np_vectorize,
    "fromiter": np_fromiter, "dtype": DtypeProxy, "finfo": np_finfo, "iinfo": np_iinfo, "issubdtype": np_issubdtype,
    "copy": np_copy, "hamming": np_hamming, "ndindex": np_ndindex, "errstate": np.errstate,
    "isscalar": lambda x: isinstance(x, (S, SB, C)) or np.isscalar(x),
}


class NPModule(types.ModuleType):
  """proxy of numpy (or one of its submodules)"""

  def __init__(self, real, override):
    super().__init__(real.__name__)
    self.__dict__["_real"] = real
    self.__dict__["_ov"] = override
    self.__dict__["_memo"] = {}
    self.__dict__["__path__"] = getattr(real, "__path__", [])
    self.__dict__["__file__"] = getattr(real, "__file__", None)
    self.__dict__["__spec__"] = getattr(real, "__spec__", None)

  def __getattr__(self, k):
    m = self._memo
    if k in m:
      return m[k]
    if k in self._ov:
      r = self._ov[k]
    else:
      v = getattr(self._real, k)
      if isinstance(v, np.ufunc):
        r = UF(v)
      elif isinstance(v, types.ModuleType):
        r = NPModule(v, SUBOV.get(v.__name__, {})) if v.__name__.startswith("numpy") else v
      elif isinstance(v, type):
        r = NPTYPES.get(k, v) if self._real is np else v
      elif callable(v) and not self._real.__name__.startswith("numpy.random"):
        r = FN(v)
      else:
        r = v
    m[k] = r
    return r

  def __dir__(self):
    return dir(self._real)


class NPRoot(NPModule):
  pass


SUBOV = {
    "numpy.lib.stride_tricks": {"as_strided": arr.as_strided, "sliding_window_view": arr.sliding_window_view},
    "numpy.fft": {"rfft": stubs.rfft, "irfft": stubs.irfft, "fft": stubs.fft, "ifft": stubs.ifft},
    "numpy.linalg": {"norm": lambda *a, **k: arr.l_norm(*a, **k) if any(arr.has_sym(x) for x in a) else np.linalg.norm(*a, **k),
                     "pinv": stubs.pinv, "lstsq": stubs.lstsq},
}


# ----------------------------------------------------------------- math proxy
def _mwrap(name, f):
  real = getattr(math, name)

  def g(*a):
    if any(arr.has_sym(x) for x in a):
      a = [x._one() if isinstance(x, arr.SymArray) else x for x in a]
      return f(*[num(x) for x in a])
    return real(*a)
  g.__name__ = name
  return g


def _mlog(fn, x):
  if isinstance(x, float):
    if x == -INF:
      raise ValueError("math domain error")
    return x
  if not bool(x > 0):
    raise ValueError("math domain error")
  return fn(x)


def _msqrt(x):
  if isinstance(x, S) and bool(x < 0):
    raise ValueError("math domain error")
  return trans.sqrt(x)


def _mfloor(x, m):
  if isinstance(x, float):
    return getattr(math, m)(x)
  r = getattr(x, "trunc" if m == "trunc" else f"__{m}__")()
  return S(r.v, True, True)


MATH = {
    "ceil": lambda x: _mfloor(x, "ceil"), "floor": lambda x: _mfloor(x, "floor"), "trunc": lambda x: _mfloor(x, "trunc"),
    "log": lambda x, b=None: _mlog(trans.log, x) if b is None else _mlog(trans.log, x) / _mlog(trans.log, b),
    "log2": lambda x: _mlog(trans.log2, x), "log10": lambda x: _mlog(trans.log10, x),
    "log1p": lambda x: _mlog(trans.log, x + 1), "exp": trans.exp, "sqrt": _msqrt, "cos": trans.cos, "sin": trans.sin,
    "tan": trans.tan, "atan": trans.arctan, "atan2": trans.arctan2, "asinh": trans.arcsinh, "sinh": trans.sinh,
    "fabs": lambda x: abs(x), "hypot": lambda *a: trans.sqrt(sum([x * x for x in a], S(0, False))),
    "isnan": arr.k_isnan, "isinf": arr.k_isinf, "isfinite": arr.k_isfinite,
    "pow": lambda a, b: a**b, "copysign": lambda a, b: abs(a) if bool(b >= 0) else -abs(a),
    "isclose": None, "fmod": None,
}


class MathModule(types.ModuleType):
  def __init__(self):
    super().__init__("math")
    self.__dict__["_memo"] = {}

  def __getattr__(self, k):
    m = self._memo
    if k not in m:
      f = MATH.get(k)
      m[k] = _mwrap(k, f) if f is not None else getattr(math, k)
    return m[k]


NP = NPRoot(np, OVERRIDE)
MATHP = MathModule()

_mods = {}


def third_party():
  """import everything the repository uses, natively"""
  sys.path.insert(0, REPO) if REPO not in sys.path else None
  for m in MODULES:
    importlib.import_module(m)


MODULES = [
    "sample", "sample.utils", "sample.utils.dsp", "sample.utils.learn", "sample.sms", "sample.sms.dsp",
    "sample.sms.sm", "sample.sms.mm", "sample.hinge", "sample.sample", "sample.psycho", "sample.plots",
    "sample.ipython", "sample.vid", "sample.optimize", "sample._training", "sample.beatsdrop",
    "sample.beatsdrop.decision", "sample.beatsdrop.regression", "sample.beatsdrop.sample", "sample.evaluation",
    "sample.evaluation.metrics", "sample.evaluation.random",
]
GUI = ["sample.widgets.audioload", "sample.widgets.settings", "sample.widgets.analysis", "sample.widgets.utils",
       "sample.widgets.userfiles", "sample.widgets.main"]


def load(gui=False):
  """install the symbolic world: afterwards 'import sample...' gives modules
  compiled from the current source and bound to the proxies"""
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  mods = MODULES + (GUI if gui else [])
  for m in mods:
    importlib.import_module(m)
  for k in [k for k in sys.modules if k == "sample" or k.startswith("sample.")]:
    del sys.modules[k]
  stubs.install()
  saved = {k: sys.modules[k] for k in list(sys.modules) if k == "numpy" or k.startswith("numpy.")}
  saved["math"] = sys.modules["math"]
  orig = importlib.machinery.SourceFileLoader.exec_module

  def exec_module(self, module):
    if module.__name__ == "sample" or module.__name__.startswith("sample.") or module.__name__.startswith("symrepo_"):
      module.__dict__["int"] = ShadowInt
      module.__dict__["float"] = ShadowFloat
      module.__dict__["complex"] = ShadowComplex
    return orig(self, module)

  importlib.machinery.SourceFileLoader.exec_module = exec_module
  prev = Ex.cur
  Ex.cur = Ex()
  Ex.cur.begin()
  try:
    sys.modules["numpy"] = NP
    for k in saved:
      if k.startswith("numpy."):
        try:
          o = NP
          for p in k.split(".")[1:]:
            o = getattr(o, p)
          sys.modules[k] = o
        except AttributeError:
          pass
    sys.modules["math"] = MATHP
    for m in mods:
      importlib.import_module(m)
  finally:
    importlib.machinery.SourceFileLoader.exec_module = orig
    sys.modules.update(saved)
    Ex.cur = prev


def load_script(path, name):
  """load a stand-alone script of the repository in the symbolic world"""
  import importlib.util
  spec = importlib.util.spec_from_file_location("symrepo_" + name, path)
  m = importlib.util.module_from_spec(spec)
  m.__dict__["int"] = ShadowInt
  m.__dict__["float"] = ShadowFloat
  # libraries are loaded beforehand, outside of the symbolic world
  with open(path, encoding="utf-8") as f:
    tree = ast.parse(f.read())
  for node in ast.walk(tree):
    names = [a.name for a in node.names] if isinstance(node, ast.Import) else [node.module] if isinstance(node, ast.ImportFrom) and not node.level else []
    for n in names:
      if n and n.split(".")[0] not in ("sample", "numpy", "math"):
        with contextlib.suppress(ImportError):
          importlib.import_module(n)
  s = sys.modules["numpy"], sys.modules["math"]
  sys.modules["numpy"], sys.modules["math"] = NP, MATHP
  try:
    spec.loader.exec_module(m)
  finally:
    sys.modules["numpy"], sys.modules["math"] = s
  return m
