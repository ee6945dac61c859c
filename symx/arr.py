"""Symbolic numpy arrays: object-dtype ndarrays with a declared dtype."""
import builtins
import itertools
import math

import numpy as np

from . import trans
from .core import (C, INF, NAN, S, SB, Unsupported, bexpr, ex, frac, is_special, lift, lift_bool, mk_bool, num,
                   s_and, s_ite, s_not, s_or, seq, sign_of, smax, smin)

# ------------------------------------------------------------------ dtypes ---
SHADOW = {}  # shadow builtin types -> real ones


def ndtype(dt):
  if dt is None:
    return np.dtype(float)
  try:
    dt = SHADOW.get(dt, dt)
  except TypeError:
    pass
  return np.dtype(dt)


def cast_scalar(x, dt, unsafe=True):
  """normal representation of scalar x as an element of dtype dt"""
  k = dt.kind
  if k == "O":
    return x
  if isinstance(x, np.ndarray) and x.ndim == 0:
    x = x[()]
  y = lift(x)
  if y is NotImplemented:
    if hasattr(x, "_sym_value_"):
      return cast_scalar(x._sym_value_(), dt)
    if k in "fiuc" and isinstance(x, str):
      return cast_scalar(float(x), dt)
    return x
  if k == "b":
    if isinstance(y, (bool, SB)):
      return y
    if isinstance(y, float):
      return True
    return lift_bool(y != 0)
  if isinstance(y, (bool, SB)):
    y = num(y)
  if k == "c":
    return y if isinstance(y, C) else C(y, S(0, False))
  if isinstance(y, C):
    y = y.re
  if k == "f":
    if isinstance(y, float):
      return y
    return S(y.r if not y.const else frac(y.v), False) if y.i else (S(y.v, False) if y.py else y)
  if k in "iu":
    if isinstance(y, float):
      return S(-2**63, True)
    y = y.trunc()
    if dt.itemsize < 8 or k == "u":
      y = _wrapint(y, dt)
    return S(y.v, True) if y.py else y
  return x


def _wrapint(y, dt):
  """modular wrap-around of a machine integer type"""
  n = 2**(8 * dt.itemsize)
  lo = 0 if dt.kind == "u" else -n // 2
  if y.const:
    return S((y.v - lo) % n + lo, True)
  import z3
  return S((y.v - lo) % n + lo, True) if not _inrange(y, lo, lo + n - 1) else y


def _inrange(y, lo, hi):
  """is the symbolic integer known to lie in [lo, hi] on this path?"""
  import z3
  E = ex()
  return E.feasible(z3.Or(y.v < lo, y.v > hi)) == "unsat"


def dtype_of(x):
  """declared dtype of a scalar or array"""
  if isinstance(x, np.ndarray):
    return x.dtype
  if isinstance(x, (S, SB, C)):
    return x.dtype
  return np.asarray(x).dtype


# ------------------------------------------------------------------ linked views
_links = {}


def _root(a):
  while isinstance(a.base, np.ndarray):
    a = a.base
  return a


def _after_write(a):
  r = _root(a)
  l = _links.get(id(r))
  if l is not None:
    buf, target, part = l
    t = plain(target)
    for idx in np.ndindex(*t.shape):
      c = t[idx]
      v = buf[idx]
      t[idx] = C(v, c.im) if part == "re" else C(c.re, v)
    _after_write(target)


def reset_links():
  _links.clear()


# ------------------------------------------------------------------- arrays ---
def plain(a):
  """the underlying object ndarray (shares memory)"""
  return np.ndarray.view(a, np.ndarray)


def wrap(o, dt):
  """object ndarray -> SymArray (shares memory)"""
  r = np.ndarray.view(o, SymArray)
  r._dt = np.dtype(dt)
  return r


def has_sym(x):
  if isinstance(x, (S, SB, C, SymArray)):
    return True
  if isinstance(x, (list, tuple)):
    return any(has_sym(i) for i in x)
  return False


def is_sym(a):
  return isinstance(a, SymArray)


class SymArray(np.ndarray):
  __array_priority__ = 1e7

  def __new__(cls, shape, dt=float):
    r = np.ndarray.__new__(cls, shape, dtype=object)
    r._dt = np.dtype(dt)
    return r

  def __array_finalize__(self, obj):
    if obj is not None:
      self._dt = getattr(obj, "_dt", np.dtype(object))

  @property
  def dtype(self):
    return self._dt

  @dtype.setter
  def dtype(self, v):
    raise Unsupported("setting dtype")

  def __array_ufunc__(self, ufunc, method, *inputs, **kw):
    return array_ufunc(ufunc, method, inputs, kw)

  def __array_function__(self, func, types, args, kwargs):
    return array_function(func, args, kwargs)

  def __array_wrap__(self, a, *args):
    return a

  # -- indexing
  def __getitem__(self, k):
    if isinstance(k, str):
      raise IndexError("only integers, slices...")
    r = plain(self)[conc_index(k)]
    return self._ret(r)

  def _ret(self, r):
    if isinstance(r, np.ndarray) and r.dtype == object:
      return wrap(r, self._dt)
    return npscalar(r)

  def __setitem__(self, k, v):
    if not isinstance(k, tuple):
      k = (k,)
    if len(k) == 1 and isinstance(k[0], SymArray) and k[0]._dt.kind == "b" and k[0].shape == self.shape and (
        not isinstance(v, (np.ndarray, list, tuple)) or np.ndim(v) == 0):
      p, m = plain(self), plain(k[0])
      y = cast_scalar(v, self._dt)
      for idx in np.ndindex(*self.shape):
        c = m[idx]
        if isinstance(c, SB) and self._dt.kind != "O":
          p[idx] = cast_scalar(s_ite(c, y, p[idx]), self._dt)
        elif bool(c):
          p[idx] = y
      _after_write(self)
      return
    k = conc_index(k)
    target = plain(self)[k]
    if not isinstance(target, np.ndarray):
      if isinstance(v, (np.ndarray, list, tuple)) and self._dt.kind != "O":
        v = asarray(v)
        if v.size != 1:
          raise ValueError("setting an array element with a sequence.")
        v = v.reshape(-1)[0]
      self._check_flags()
      if self._dt.kind in "fiu" and isinstance(lift(v), C):
        raise TypeError("can't convert complex to float")
      plain(self)[k] = cast_scalar(v, self._dt)
      _after_write(self)
      return
    v = asarray(v)
    if self._dt.kind == "O":
      plain(self)[k] = plain(v)
    else:
      plain(self)[k] = _castarr(v, self._dt)
    _after_write(self)

  def _check_flags(self):
    if not self.flags.writeable:
      raise ValueError("assignment destination is read-only")

  def __iter__(self):
    if self.ndim == 0:
      raise TypeError("iteration over a 0-d array")
    return (self[i] for i in range(self.shape[0]))

  def __bool__(self):
    if self.size == 1:
      return bool(lift_bool(plain(self).reshape(-1)[0]))
    if self.size == 0:
      return False
    raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

  def _one(self):
    if self.size != 1:
      raise TypeError("only length-1 arrays can be converted to Python scalars")
    return plain(self).reshape(-1)[0]

  def __int__(self):
    return int(self._one())

  def __float__(self):
    return float(self._one())

  def __index__(self):
    if self._dt.kind not in "iub" or self.size != 1:
      raise TypeError("only integer scalar arrays can be converted to a scalar index")
    return int(self._one())

  def __complex__(self):
    return complex(self._one())

  def __contains__(self, v):
    return bool(np.any(self == v))

  def __round__(self, nd=None):
    return f_round(self, nd or 0)

  def __repr__(self):
    return f"SymArray(shape={self.shape}, dtype={self._dt})"

  __str__ = __repr__

  def __format__(self, s):
    return repr(self)

  def __deepcopy__(self, memo):
    return self.copy()

  def __copy__(self):
    return self.copy()

  def __reduce__(self):
    raise Unsupported("pickling a symbolic array")

  # -- structure
  def copy(self, order="C"):
    return wrap(plain(self).copy(), self._dt)

  def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
    dt = ndtype(dtype)
    np.empty(0, self._dt).astype(dt, casting=casting)
    return wrap(_castarr(self, dt).copy(), dt)

  def view(self, *a, **k):
    if not a and not k:
      return wrap(plain(self), self._dt)
    if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
      return self
    raise Unsupported("array view")

  def item(self, *a):
    if a:
      return self[a if len(a) > 1 else a[0]]
    return pyscalar(self._one())

  def tolist(self):
    def rec(o):
      if isinstance(o, np.ndarray):
        if o.ndim == 0:
          return pyscalar(o[()])
        return [rec(i) for i in o]
      return pyscalar(o)
    return rec(plain(self))

  def fill(self, v):
    self[...] = v

  def flatten(self, order="C"):
    return wrap(plain(self).flatten(order), self._dt)

  def ravel(self, order="C"):
    return wrap(plain(self).ravel(order), self._dt)

  def reshape(self, *s, **k):
    s = [concint(x) for x in s]
    return wrap(plain(self).reshape(*s, **k), self._dt)

  def transpose(self, *a):
    return wrap(plain(self).transpose(*a), self._dt)

  @property
  def T(self):
    return wrap(plain(self).T, self._dt)

  def squeeze(self, axis=None):
    return wrap(plain(self).squeeze(axis), self._dt)

  def repeat(self, n, axis=None):
    return wrap(plain(self).repeat(concint(n), axis), self._dt)

  def take(self, idx, axis=None, out=None, mode="raise"):
    return self._ret(plain(self).take(conc_index(idx), axis=axis, mode=mode))

  def compress(self, cond, axis=None, out=None):
    return self._ret(plain(self).compress(conc_index(cond), axis=axis))

  def nonzero(self):
    return tuple(asarray(i) for i in np.nonzero(conc_mask(self)))

  def put(self, *a, **k):
    raise Unsupported("put")

  def tobytes(self, *a):
    return const_array(self).tobytes(*a)

  # -- complex parts
  @property
  def real(self):
    if self._dt.kind != "c":
      return self
    return self._part("re")

  @real.setter
  def real(self, v):
    self._set_part("re", v)

  @property
  def imag(self):
    if self._dt.kind != "c":
      return zeros(self.shape, self._dt)
    return self._part("im")

  @imag.setter
  def imag(self, v):
    self._set_part("im", v)

  def _part(self, part):
    buf = np.empty(self.shape, dtype=object)
    p = plain(self)
    for idx in np.ndindex(*self.shape):
      buf[idx] = cast_scalar(getattr(p[idx], part), np.dtype(float))
    _links[id(buf)] = (buf, self, part)
    return wrap(buf, np.empty(0, self._dt).real.dtype)

  def _set_part(self, part, v):
    p = plain(self)
    v = np.broadcast_to(plain(asarray(v)), self.shape)
    for idx in np.ndindex(*self.shape):
      c = p[idx]
      p[idx] = (C(v[idx], c.im) if part == "re" else C(c.re, v[idx])) if self._dt.kind == "c" else cast_scalar(
          v[idx], self._dt)
    _after_write(self)

  def conj(self):
    return np.conjugate(self)

  conjugate = conj

  # -- reductions
  def sum(self, axis=None, dtype=None, out=None, **k):
    return f_sum(self, axis=axis, dtype=dtype, out=out, **k)

  def prod(self, axis=None, dtype=None, out=None, **k):
    return array_ufunc(np.multiply, "reduce", (self,), dict(axis=axis, dtype=dtype, out=out, **k))

  def mean(self, axis=None, dtype=None, out=None, **k):
    return f_mean(self, axis=axis, dtype=dtype, out=out, **k)

  def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
    return f_var(self, axis=axis, ddof=ddof, out=out, **k)

  def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
    return f_std(self, axis=axis, ddof=ddof, out=out, **k)

  def max(self, axis=None, out=None, **k):
    return array_ufunc(np.maximum, "reduce", (self,), dict(axis=axis, out=out, **k))

  def min(self, axis=None, out=None, **k):
    return array_ufunc(np.minimum, "reduce", (self,), dict(axis=axis, out=out, **k))

  def ptp(self, axis=None, out=None, **k):
    return self.max(axis) - self.min(axis)

  def any(self, axis=None, out=None, **k):
    return array_ufunc(np.logical_or, "reduce", (self,), dict(axis=axis, out=out, **k))

  def all(self, axis=None, out=None, **k):
    return array_ufunc(np.logical_and, "reduce", (self,), dict(axis=axis, out=out, **k))

  def cumsum(self, axis=None, dtype=None, out=None):
    return f_cum(np.add, self, axis, dtype, out)

  def cumprod(self, axis=None, dtype=None, out=None):
    return f_cum(np.multiply, self, axis, dtype, out)

  def argmax(self, axis=None, out=None, **k):
    return f_arg(self, axis, 1)

  def argmin(self, axis=None, out=None, **k):
    return f_arg(self, axis, -1)

  def argsort(self, axis=-1, kind=None, order=None):
    return f_argsort(self, axis)

  def sort(self, axis=-1, kind=None, order=None):
    self[...] = f_sort(self, axis)

  def searchsorted(self, v, side="left", sorter=None):
    return f_searchsorted(self, v, side)

  def clip(self, min=None, max=None, out=None, **k):
    return f_clip(self, min, max, out=out)

  def round(self, decimals=0, out=None):
    return f_round(self, decimals, out)

  def dot(self, b, out=None):
    return f_dot(self, b)

  def diagonal(self, *a, **k):
    return wrap(plain(self).diagonal(*a, **k), self._dt)


def npscalar(x):
  """element as returned by numpy indexing"""
  if isinstance(x, bool):
    return np.bool_(x)
  if isinstance(x, S) and x.py:
    return S(x.v, x.i)
  if isinstance(x, float):
    return np.float64(x)
  return x


def pyscalar(x):
  """element as returned by tolist()/item()"""
  if isinstance(x, np.bool_):
    return bool(x)
  if isinstance(x, S) and not x.py:
    return S(x.v, x.i, True)
  return x


def concint(x):
  if isinstance(x, (S, SB)):
    return x.__index__() if isinstance(x, S) else int(bool(x))
  if isinstance(x, SymArray):
    if x.ndim == 0:
      return x.__index__()
    return np.array([int(i) for i in plain(x).ravel()], dtype=int).reshape(x.shape)
  if isinstance(x, (tuple, list)):
    return type(x)(concint(i) for i in x)
  return x


def conc_mask(m):
  """truth values of every element (forks)"""
  r = np.empty(m.shape, dtype=bool)
  p = plain(m)
  for idx in np.ndindex(*m.shape):
    e = p[idx]
    r[idx] = True if isinstance(e, float) else bool(lift_bool(e) if m._dt.kind != "O" else e)
  return r


def conc_index(k):
  if isinstance(k, tuple):
    return tuple(conc_index(i) for i in k)
  if isinstance(k, SymArray):
    if k._dt.kind == "b":
      return conc_mask(k)
    if k._dt.kind == "f" and k.size:
      raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if k.ndim == 0:
      return int(k._one())
    r = np.empty(k.shape, dtype=int)
    p = plain(k)
    for idx in np.ndindex(*k.shape):
      r[idx] = int(p[idx])
    return r
  if isinstance(k, SB):
    return bool(k)
  if isinstance(k, S):
    return k.__index__()
  if isinstance(k, slice):
    return slice(*[None if i is None else (i.__index__() if hasattr(i, "__index__") else i)
                   for i in (k.start, k.stop, k.step)])
  if isinstance(k, list):
    if has_sym(k):
      return conc_index(asarray(k))
    return k
  return k


def _castarr(v, dt):
  """object ndarray with the elements of v normalised to dt"""
  p = plain(v)
  if v._dt == dt:
    return p
  r = np.empty(p.shape, dtype=object)
  for idx in np.ndindex(*p.shape):
    r[idx] = cast_scalar(p[idx], dt)
  return r


def from_concrete(a, dt=None):
  """real ndarray -> SymArray"""
  dt = a.dtype if dt is None else dt
  if dt.kind in "USV" or (dt.kind == "O"):
    r = np.empty(a.shape, dtype=object)
    r[...] = a
    return wrap(r, dt if dt.kind == "O" else object)
  r = np.empty(a.shape, dtype=object)
  for idx in np.ndindex(*a.shape):
    r[idx] = cast_scalar(a[idx], dt)
  return wrap(r, dt)


def _infer(objs):
  dts = []
  for o in objs:
    if isinstance(o, np.bool_):
      o = bool(o)
    if isinstance(o, (S, SB, C)):
      dts.append(o.dtype)
    elif isinstance(o, np.ndarray):
      dts.append(o.dtype)
    else:
      dts.append(np.asarray(o).dtype)
  if not dts:
    return np.dtype(float)
  if any(d.kind == "O" for d in dts):
    return np.dtype(object)
  return np.result_type(*dts)


def asarray(x, dtype=None):
  """anything -> SymArray (shares memory with a SymArray of the same dtype)"""
  dt = None if dtype is None else ndtype(dtype)
  if isinstance(x, SymArray):
    return x if dt is None or dt == x._dt else x.astype(dt)
  if hasattr(x, "_sym_array_"):
    return asarray(x._sym_array_(), dtype)
  if isinstance(x, (S, SB, C)):
    r = np.empty((), dtype=object)
    r[()] = cast_scalar(x, dt or x.dtype)
    return wrap(r, dt or x.dtype)
  if isinstance(x, np.ndarray) or not has_sym(x):
    if isinstance(x, (list, tuple)) or hasattr(x, "__array__") or isinstance(x, (range,)):
      a = np.array(x) if not isinstance(x, np.ndarray) else x
    else:
      a = np.asarray(x)
    if dt is not None and dt.kind != "O":
      a = a.astype(dt)
    return from_concrete(a)

  # nested sequences with symbolic leaves
  def shape_of(v):
    if isinstance(v, (list, tuple)):
      if not v:
        return (0,)
      ss = {shape_of(i) for i in v}
      if len(ss) != 1:
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
      return (len(v),) + ss.pop()
    if isinstance(v, np.ndarray):
      return v.shape
    return ()

  leaves = []

  def rec(v):
    if isinstance(v, (list, tuple)):
      for i in v:
        rec(i)
    elif isinstance(v, np.ndarray):
      v = asarray(v)
      dts.append(v.dtype)
      leaves.extend(list(plain(v).ravel()))
    else:
      leaves.append(v)
      dts.append(_infer([v]))

  dts = []
  sh = shape_of(x)
  rec(x)
  if dt is None:
    dt = np.dtype(object) if any(d.kind == "O" for d in dts) else (np.result_type(*dts) if dts else np.dtype(float))
  r = np.empty(len(leaves), dtype=object)
  for i, l in enumerate(leaves):
    r[i] = cast_scalar(l, dt)
  return wrap(r.reshape(sh), dt)


def const_scalar(x):
  """concrete value of an element or None"""
  if isinstance(x, S):
    if not x.const:
      return None
    return int(x.v) if x.i else float(x.v)
  if isinstance(x, SB):
    return None
  if isinstance(x, C):
    a, b = const_scalar(x.re), const_scalar(x.im)
    return None if a is None or b is None else complex(a, b)
  return x


def const_array(a):
  """real ndarray of a fully concrete SymArray, else Unsupported"""
  p = plain(a)
  r = np.empty(p.shape, dtype=a._dt)
  for idx in np.ndindex(*p.shape):
    v = const_scalar(p[idx])
    if v is None:
      raise Unsupported("symbolic value where a concrete one is needed")
    r[idx] = v
  return r


def shp(shape):
  if isinstance(shape, (list, tuple)) or isinstance(shape, np.ndarray):
    return tuple(int(i) for i in shape)
  return (int(shape),)


def zeros(shape, dtype=None, *a, **k):
  dt = ndtype(dtype)
  o = np.empty(shp(shape), dtype=object)
  o.fill(cast_scalar(0, dt) if dt.kind != "O" else 0)
  return wrap(o, dt)


def ones(shape, dtype=None, *a, **k):
  dt = ndtype(dtype)
  o = np.empty(shp(shape), dtype=object)
  o.fill(cast_scalar(1, dt))
  return wrap(o, dt)


def full(shape, fill_value, dtype=None, *a, **k):
  v = asarray(fill_value)
  dt = ndtype(dtype) if dtype is not None else v._dt
  o = np.empty(shp(shape), dtype=object)
  r = wrap(o, dt)
  r[...] = v
  return r


def empty(shape, dtype=None, *a, **k):
  """uninitialised memory: every element is an arbitrary value"""
  dt = ndtype(dtype)
  o = np.empty(shp(shape), dtype=object)
  if dt.kind == "O":
    return wrap(o, dt)
  E = ex()
  for idx in np.ndindex(*o.shape):
    if dt.kind == "b":
      o[idx] = SB(E.fresh("uninit", "b"))
    elif dt.kind in "iu":
      o[idx] = S(E.fresh("uninit", "i"), True)
    elif dt.kind == "c":
      o[idx] = C(S(E.fresh("uninit"), False), S(E.fresh("uninit"), False))
    else:
      o[idx] = S(E.fresh("uninit"), False)
  return wrap(o, dt)


def _like(f):
  def g(a, *args, dtype=None, order="K", subok=True, shape=None):
    a = asarray(a)
    return f(a.shape if shape is None else shape, *args, dtype=a.dtype if dtype is None else dtype)
  return g


def arange(*args, dtype=None, **k):
  st, step = 0, 1
  if "start" in k or "stop" in k or "step" in k:
    st, step = k.get("start", 0), k.get("step", 1)
    if len(args) == 1 and "stop" not in k:
      sp = args[0]
    else:
      sp = k.get("stop", args[-1] if args else None)
  elif len(args) == 1:
    sp = args[0]
  elif len(args) == 2:
    st, sp = args
  else:
    st, sp, step = args[:3]
  st, sp, step = (pyish(v) for v in (st, sp, step))
  ints = all(isinstance(num(v), S) and num(v).i for v in (st, sp, step))
  n = num(sp) - num(st)
  if isinstance(step, S) and not step.const or isinstance(n, float):
    n = n / step
  else:
    n = n / S(num(step).v, num(step).i)
  n = builtins.max(0, int(n.__ceil__()))
  dt = ndtype(dtype) if dtype is not None else np.dtype(int if ints else float)
  o = np.empty(n, dtype=object)
  for i in range(n):
    o[i] = cast_scalar(num(st) + i * num(step), dt)
  return wrap(o, dt)


def pyish(v):
  if isinstance(v, SymArray) and v.ndim == 0:
    return v[()]
  return v


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
  n = int(num)
  start, stop = asarray(start), asarray(stop)
  div = (n - 1) if endpoint else n
  step = (stop - start) / div if div > 0 else NAN
  items = [start + (stop - start) * S(frac(0) if div == 0 else frac(i) / div, False) for i in range(n)]
  if endpoint and n > 1:
    items[-1] = stop
  if not items:
    return zeros((0,) + start.shape, dtype)
  r = asarray([i if isinstance(i, SymArray) else asarray(i) for i in items])
  r = r.astype(dtype if dtype is not None else (float if r._dt.kind in "iub" else r._dt))
  if axis not in (0,):
    r = wrap(np.moveaxis(plain(r), 0, axis), r._dt)
  return (r, step) if retstep else r


# ------------------------------------------------------------------ kernels ---
def _nanaware(f):
  def g(a, b):
    a, b = num(a), num(b)
    for x in (a, b):
      if isinstance(x, float) and x != x:
        return False
    return f(a, b)
  return g


def _lt(a, b):
  if isinstance(a, float) and isinstance(b, float):
    return a < b
  if isinstance(a, float):
    return a == -INF
  if isinstance(b, float):
    return b == INF
  return a < b


def _le(a, b):
  if isinstance(a, float) and isinstance(b, float):
    return a <= b
  if isinstance(a, float):
    return a == -INF
  if isinstance(b, float):
    return b == INF
  return a <= b


def _elt(x, f):
  """apply a scalar function to re/im aware element"""
  return f(x)


def k_eq(a, b):
  la, lb = lift(a), lift(b)
  if isinstance(la, (bool, SB)) and isinstance(lb, (bool, SB)):
    return mk_bool(bexpr(la) == bexpr(lb))
  if la is NotImplemented or lb is NotImplemented:
    return bool(a == b)
  return seq(la, lb)


def k_abs(a):
  a = num(a)
  if isinstance(a, float):
    return abs(a)
  return abs(a)


def k_sign(a):
  a = num(a)
  if isinstance(a, float):
    return a if a != a else S(1 if a > 0 else -1, False)
  return s_ite(a > 0, S(1, a.i), s_ite(a < 0, S(-1, a.i), S(0, a.i)))


def k_isfinite(a):
  a = num(a)
  if isinstance(a, C):
    return k_isfinite(a.re) and k_isfinite(a.im)
  return not isinstance(a, float)


def k_isnan(a):
  a = num(a)
  if isinstance(a, C):
    return k_isnan(a.re) or k_isnan(a.im)
  return isinstance(a, float) and a != a


def k_isinf(a):
  a = num(a)
  if isinstance(a, C):
    return k_isinf(a.re) or k_isinf(a.im)
  return isinstance(a, float) and a == a


def _np2(op):
  def f(a, b):
    a, b = num(a), num(b)
    # numpy semantics: never a python ZeroDivisionError
    if isinstance(a, S) and a.py:
      a = S(a.v, a.i)
    if isinstance(b, S) and b.py:
      b = S(b.v, b.i)
    from .core import _binspecial
    if op == "pow" and (k_isnan(a) or k_isnan(b)) and bool(s_or(k_eq(a, 1), k_eq(b, 0))):
      return S(1, False)
    if isinstance(a, float) and isinstance(b, (float, S)):
      return _binspecial(op, a, b)
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b,
            "floordiv": lambda: a // b, "mod": lambda: a % b, "pow": lambda: a**b}[op]()
  return f


def k_floor(a):
  a = num(a)
  return a if isinstance(a, float) else a.__floor__()


def k_ceil(a):
  a = num(a)
  return a if isinstance(a, float) else a.__ceil__()


def k_rint(a):
  a = num(a)
  return a if isinstance(a, float) else a.rint()


def k_trunc(a):
  a = num(a)
  return a if isinstance(a, float) else a.trunc()


def k_exp(a):
  return trans.exp(a)


def k_hypot(a, b):
  return trans.sqrt(a * a + b * b)


def k_conj(a):
  a = num(a)
  return a.conjugate() if isinstance(a, C) else a


def k_recip(a):
  return _np2("div")(S(1, False), a)


def _bitop(f_bool, f_int):
  def g(a, b):
    la, lb = lift(a), lift(b)
    if isinstance(la, (bool, SB)) and isinstance(lb, (bool, SB)):
      return f_bool(la, lb)
    return S(f_int(int(num(la)), int(num(lb))), True)
  return g


def k_xor(a, b):
  return mk_bool(bexpr(a) != bexpr(b))


def k_invert(a):
  la = lift(a)
  return s_not(la) if isinstance(la, (bool, SB)) else S(~int(la), True)


def k_fmax(a, b):
  a, b = num(a), num(b)
  if k_isnan(a):
    return b
  if k_isnan(b):
    return a
  return smax(a, b)


def k_fmin(a, b):
  a, b = num(a), num(b)
  if k_isnan(a):
    return b
  if k_isnan(b):
    return a
  return smin(a, b)


def k_max(a, b):
  la, lb = lift(a), lift(b)
  if isinstance(la, (bool, SB)) and isinstance(lb, (bool, SB)):
    return s_or(la, lb)
  return smax(la, lb)


def k_min(a, b):
  la, lb = lift(a), lift(b)
  if isinstance(la, (bool, SB)) and isinstance(lb, (bool, SB)):
    return s_and(la, lb)
  return smin(la, lb)


def _addk(a, b):
  la, lb = lift(a), lift(b)
  if isinstance(la, (bool, SB)) and isinstance(lb, (bool, SB)):
    return s_or(la, lb)
  return _np2("add")(la, lb)


def _mulk(a, b):
  la, lb = lift(a), lift(b)
  if isinstance(la, (bool, SB)) and isinstance(lb, (bool, SB)):
    return s_and(la, lb)
  return _np2("mul")(la, lb)


def _neg(a):
  a = num(a)
  return -a


KERNELS = {
    "add": _addk, "subtract": _np2("sub"), "multiply": _mulk, "divide": _np2("div"), "true_divide": _np2("div"),
    "floor_divide": _np2("floordiv"), "remainder": _np2("mod"), "mod": _np2("mod"), "power": _np2("pow"),
    "float_power": _np2("pow"), "negative": _neg, "positive": lambda a: a, "absolute": k_abs, "fabs": k_abs,
    "abs": k_abs, "sign": k_sign, "rint": k_rint, "floor": k_floor, "ceil": k_ceil, "trunc": k_trunc,
    "square": lambda a: _mulk(a, a), "sqrt": trans.sqrt, "reciprocal": k_recip, "conjugate": k_conj, "conj": k_conj,
    "cbrt": lambda a: k_sign(a) * trans.pow_general(abs(num(a)), S(frac(1) / 3, False)),
    "exp": trans.exp, "exp2": lambda a: trans.powc(S(2, False), num(a)), "expm1": trans.expm1, "log": trans.log,
    "log2": trans.log2, "log10": trans.log10, "log1p": trans.log1p, "sin": trans.sin, "cos": trans.cos,
    "tan": trans.tan, "arctan": trans.arctan, "arctan2": trans.arctan2, "arcsinh": trans.arcsinh,
    "sinh": trans.sinh, "hypot": k_hypot,
    "deg2rad": lambda a: num(a) * S(trans.PI / 180, False), "radians": lambda a: num(a) * S(trans.PI / 180, False),
    "rad2deg": lambda a: num(a) * S(180 / trans.PI, False), "degrees": lambda a: num(a) * S(180 / trans.PI, False),
    "greater": _nanaware(lambda a, b: _lt(b, a)), "greater_equal": _nanaware(lambda a, b: _le(b, a)),
    "less": _nanaware(_lt), "less_equal": _nanaware(_le),
    "equal": k_eq, "not_equal": lambda a, b: s_not(k_eq(a, b)),
    "logical_and": lambda a, b: s_and(tb(a), tb(b)), "logical_or": lambda a, b: s_or(tb(a), tb(b)),
    "logical_not": lambda a: s_not(tb(a)), "logical_xor": lambda a, b: k_xor(tb(a), tb(b)),
    "bitwise_and": _bitop(s_and, lambda a, b: a & b), "bitwise_or": _bitop(s_or, lambda a, b: a | b),
    "bitwise_xor": _bitop(k_xor, lambda a, b: a ^ b), "invert": k_invert, "bitwise_not": k_invert,
    "left_shift": lambda a, b: num(a) << num(b), "right_shift": lambda a, b: num(a) >> num(b),
    "maximum": k_max, "minimum": k_min, "fmax": k_fmax, "fmin": k_fmin,
    "isfinite": k_isfinite, "isnan": k_isnan, "isinf": k_isinf,
    "signbit": lambda a: num(a) < 0, "heaviside": lambda a, b: NAN if k_isnan(a) else s_ite(num(a) > 0, S(1, False), s_ite(
        num(a) == 0, num(b), S(0, False))),
    "copysign": lambda a, b: s_ite(num(b) >= 0, abs(num(a)), -abs(num(a))),
}


def tb(x):
  """truth value of an element"""
  if isinstance(x, float):
    return True
  return lift_bool(lift(x))


def _dummy(x):
  """concrete stand-in with the same dtype and shape"""
  if isinstance(x, SymArray):
    if x._dt.kind == "O":
      d = np.empty(x.shape, dtype=object)
      d.fill(1)
      return d
    return np.ones(x.shape, x._dt)
  if isinstance(x, S):
    if x.i:
      v = 1 if not x.const or abs(x.v) > 2**62 else int(x.v)
      return v if x.py else np.int64(v)
    return 1.0 if x.py else np.float64(1)
  if isinstance(x, SB):
    return np.bool_(True)
  if isinstance(x, C):
    return np.complex128(1)
  if isinstance(x, np.ndarray) and x.dtype.kind in "biufc":
    return np.ones(x.shape, x.dtype)
  return x


def _norm_in(x):
  if isinstance(x, (list, tuple)):
    return asarray(x)
  if hasattr(x, "_sym_array_"):
    return asarray(x._sym_array_())
  if hasattr(x, "_sym_value_"):
    return x._sym_value_()
  if hasattr(x, "__array__") and not isinstance(x, (np.ndarray, np.generic, S, SB, C)):
    # e.g. a column of a table
    return asarray(x)
  return x


def _obj(x):
  if isinstance(x, SymArray):
    return plain(x)
  if isinstance(x, np.ndarray):
    return plain(from_concrete(x))
  r = np.empty((), dtype=object)
  if isinstance(x, np.generic):
    l = lift(x)
    x = x if l is NotImplemented else l
  r[()] = x
  return r


def array_ufunc(ufunc, method, inputs, kw):
  kw = {k: v for k, v in kw.items() if not (v is None and k in ("out", "dtype"))}
  inputs = tuple(_norm_in(i) for i in inputs)
  name = ufunc.__name__
  if "dtype" in kw:
    kw["dtype"] = ndtype(kw["dtype"])
  out = kw.pop("out", None)
  if isinstance(out, tuple):
    if len(out) != 1:
      raise Unsupported("several outputs")
    out, = out
  if out is not None and not isinstance(out, np.ndarray):
    raise TypeError("return arrays must be of ArrayType")
  if name in ("matmul", "vecdot"):
    return _matmul(inputs[0], inputs[1], out, kw)
  if name == "divmod" and method == "__call__":
    return (array_ufunc(np.floor_divide, method, inputs, {}), array_ufunc(np.remainder, method, inputs, {}))
  kern = KERNELS.get(name)
  if kern is None:
    return _fallback(getattr(ufunc, method), inputs, dict(kw, out=out) if out is not None else kw)
  where = kw.pop("where", True)
  dkw = dict(kw)
  if out is not None:
    dkw["out"] = _dummy(out)
    if isinstance(out, np.ndarray) and not out.flags.writeable:
      raise ValueError("output array is read-only")
  if "initial" in dkw and isinstance(dkw["initial"], (S, SymArray)):
    dkw["initial"] = _dummy(dkw["initial"])
  with np.errstate(all="ignore"):
    dres = getattr(ufunc, method)(*[_dummy(i) for i in inputs], **dkw)
  rdt = np.asarray(dres).dtype
  rshape = np.shape(dres)
  if method == "__call__":
    ops = np.broadcast_arrays(*[_obj(i) for i in inputs]) if len(inputs) > 1 else [_obj(inputs[0])]
    if out is not None:
      ops = [np.broadcast_to(o, out.shape) for o in ops]
    wh = None
    if where is not True:
      wh = np.broadcast_to(_obj(_norm_in(where)), ops[0].shape)
    res = np.empty(ops[0].shape, dtype=object)
    if name == "power" and rdt.kind in "iu":
      for v in ops[1].ravel():
        if bool(num(v) < 0):
          raise ValueError("Integers to negative integer powers are not allowed.")
    # the loop computes in the common type: integers become floats before a float operation
    for idx in np.ndindex(*res.shape):
      if wh is not None:
        c = wh[idx]
        old = plain(out)[idx] if out is not None else None
        if isinstance(c, SB):
          v = kern(*[o[idx] for o in ops])
          if old is None:
            old = empty((), rdt)[()]
          res[idx] = cast_scalar(s_ite(c, cast_scalar(v, rdt), old), rdt)
        elif bool(c):
          res[idx] = cast_scalar(kern(*[o[idx] for o in ops]), rdt)
        else:
          res[idx] = old if old is not None else empty((), rdt)[()]
        continue
      res[idx] = cast_scalar(kern(*[o[idx] for o in ops]), rdt)
    return _deliver(res, rdt, out, any(isinstance(i, np.ndarray) for i in inputs))
  if method == "reduce":
    a = asarray(inputs[0])
    axis = kw.get("axis", inputs[1] if len(inputs) > 1 else 0)
    keep = kw.get("keepdims", False) is True
    p = plain(a)
    if rdt.kind != "b" and a._dt.kind == "b" and name in ("add", "multiply"):
      p = plain(a.astype(rdt))
    nd = p.ndim
    axes = tuple(range(nd)) if axis is None else tuple(int(x) % nd for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(nd) if i not in axes]
    q = np.transpose(p, rest + list(axes)).reshape([p.shape[i] for i in rest] + [int(np.prod([p.shape[i] for i in axes], dtype=int))]) if nd else p.reshape(1)
    whq = None
    if where is not True:
      w = np.broadcast_to(_obj(_norm_in(where)), p.shape)
      whq = np.transpose(w, rest + list(axes)).reshape(q.shape)
    res = np.empty(q.shape[:-1], dtype=object)
    for idx in np.ndindex(*res.shape):
      items = list(q[idx])
      if whq is not None:
        items = [x for x, c in zip(items, whq[idx]) if bool(tb(c))]
      if kw.get("initial", np._NoValue) is not np._NoValue and kw.get("initial") is not None:
        items = [num(kw["initial"])] + items
      if not items:
        if ufunc.identity is None:
          raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
        items = [ufunc.identity]
      if name in ("logical_and", "logical_or"):
        acc = (s_and if name == "logical_and" else s_or)(*[tb(i) for i in items])
      else:
        acc = items[0]
        for x in items[1:]:
          acc = kern(acc, x)
      res[idx] = cast_scalar(acc, rdt)
    return _deliver(res.reshape(rshape if out is None else out.shape) if (keep or out is not None) else res, rdt, out,
                    False if not res.shape and not keep else True)
  if method == "accumulate":
    a = asarray(inputs[0])
    axis = kw.get("axis", inputs[1] if len(inputs) > 1 else 0)
    p = np.moveaxis(plain(a), axis, 0)
    res = np.empty(p.shape, dtype=object)
    for idx in np.ndindex(*p.shape[1:]):
      acc = None
      for i in range(p.shape[0]):
        x = p[(i,) + idx]
        acc = cast_scalar(x if acc is None else kern(acc, x), rdt)
        res[(i,) + idx] = acc
    return _deliver(np.moveaxis(res, 0, axis), rdt, out, True)
  if method == "outer":
    a, b = asarray(inputs[0]), asarray(inputs[1])
    a2 = a.reshape(a.shape + (1,) * b.ndim)
    return array_ufunc(ufunc, "__call__", (a2, b), dict(kw, out=out))
  if method == "at":
    a, ind = inputs[0], conc_index(inputs[1])
    if len(inputs) > 2:
      b = np.broadcast_to(_obj(_norm_in(inputs[2])), np.shape(plain(a)[ind]))
    ii = np.arange(a.size).reshape(a.shape)[ind]
    flat = list(np.ndindex(*a.shape))
    for n, j in np.ndenumerate(ii):
      k = flat[j]
      plain(a)[k] = cast_scalar(kern(plain(a)[k], b[n]) if len(inputs) > 2 else kern(plain(a)[k]), a._dt)
    _after_write(a)
    return None
  raise Unsupported(f"ufunc method {name}.{method}")


def _deliver(res, rdt, out, arrayish):
  if out is None:
    if res.ndim == 0:
      return npscalar(res[()])
    return wrap(np.ascontiguousarray(res) if res.ndim else res, rdt)
  if isinstance(out, SymArray):
    r = wrap(res, rdt)
    plain(out)[...] = _castarr(r, out._dt)
    _after_write(out)
    return out
  out[...] = const_array(wrap(res, rdt))
  return out


def _matmul(a, b, out=None, kw=None):
  a, b = asarray(a), asarray(b)
  d = np.matmul(_dummy(a), _dummy(b), **({} if out is None else {"out": _dummy(out)}))
  rdt = d.dtype
  A, B = plain(a), plain(b)
  sa, sb = A.ndim == 1, B.ndim == 1
  if sa:
    A = A[None, :]
  if sb:
    B = B[:, None]
  bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
  A = np.broadcast_to(A, bs + A.shape[-2:])
  B = np.broadcast_to(B, bs + B.shape[-2:])
  res = np.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
  for idx in np.ndindex(*res.shape):
    bi, i, j = idx[:-2], idx[-2], idx[-1]
    acc = S(0, True)
    for k in range(A.shape[-1]):
      acc = _addk(acc, _mulk(A[bi + (i, k)], B[bi + (k, j)]))
    res[idx] = cast_scalar(acc, rdt)
  if sa:
    res = res[..., 0, :]
  if sb:
    res = res[..., 0]
  return _deliver(np.asarray(res), rdt, out, True)


# ------------------------------------------------------------- functions -----
def _map(x, f):
  if isinstance(x, SymArray) or isinstance(x, (S, SB, C)):
    return f(x)
  if isinstance(x, (list, tuple)):
    return type(x)(_map(i, f) for i in x)
  if isinstance(x, dict):
    return {k: _map(v, f) for k, v in x.items()}
  return x


def _conc(x):
  if isinstance(x, SymArray):
    return const_array(x)
  v = const_scalar(x)
  if v is None:
    raise Unsupported("symbolic scalar in a library function")
  return v


def _fallback(func, args, kwargs):
  """no symbolic implementation: only concrete operands"""
  try:
    a, k = _map(tuple(args), _conc), _map(dict(kwargs), _conc)
  except Unsupported as e:
    raise Unsupported(f"{getattr(func, '__name__', func)}: {e}")
  outs = [x for x in list(args) + list(kwargs.values()) if isinstance(x, SymArray)]
  r = func(*a, **k)
  if isinstance(kwargs.get("out"), SymArray):
    kwargs["out"][...] = r
    return kwargs["out"]
  return back(r)


def back(r):
  """real numpy results -> symbolic representation"""
  if isinstance(r, np.ndarray) and not isinstance(r, SymArray):
    return from_concrete(r) if r.dtype.kind in "biufcO" else r
  if isinstance(r, tuple) and type(r) is tuple:
    return tuple(back(i) for i in r)
  if isinstance(r, list):
    return [back(i) for i in r]
  return r


STRUCT = {
    "reshape", "ravel", "transpose", "flip", "fliplr", "flipud", "roll", "concatenate", "stack", "hstack", "vstack",
    "column_stack", "dstack", "row_stack", "squeeze", "expand_dims", "atleast_1d", "atleast_2d", "atleast_3d", "tile",
    "repeat", "broadcast_to", "broadcast_arrays", "moveaxis", "swapaxes", "rollaxis", "rot90", "split", "array_split",
    "hsplit", "vsplit", "append", "insert", "delete", "take", "copy", "diag", "diagonal", "pad", "resize", "meshgrid",
    "take_along_axis", "tril", "triu", "block", "diagflat", "require",
}
SHAPEQ = {"ndim", "shape", "size", "iscomplexobj", "isrealobj", "isscalar", "shares_memory", "may_share_memory",
          "broadcast_shapes", "iterable"}


def f_struct(func, args, kwargs):
  scal = {}

  def obj(x):
    if isinstance(x, SymArray):
      return plain(x)
    if isinstance(x, S):
      return x
    r = np.empty((), dtype=object)
    r[()] = x
    return r

  first_sym = {}

  def idxarg(x):
    return x

  name = func.__name__
  args = list(args)
  # positional parameters that are indices or shapes, not data
  data_n = {"insert": (0, 2), "append": (0, 1), "concatenate": (0,), "pad": (0,)}.get(name, (0,))
  if name in ("broadcast_arrays", "atleast_1d", "atleast_2d", "atleast_3d", "meshgrid"):
    data_n = tuple(range(len(args)))
  oargs, dargs = [], []
  for i, a in enumerate(args):
    if i in data_n:
      if name in ("concatenate", "stack", "hstack", "vstack", "column_stack", "dstack", "row_stack", "block"):
        a = [asarray(x) for x in a] if not isinstance(a, SymArray) else [asarray(x) for x in a]
        oargs.append([plain(x) for x in a])
        dargs.append([_dummy(x) for x in a])
      else:
        a = asarray(a)
        oargs.append(plain(a))
        dargs.append(_dummy(a))
    else:
      a = concint(a) if not isinstance(a, slice) else a
      oargs.append(a)
      dargs.append(a)
  okw = {k: (SHADOW.get(v, v) if isinstance(v, type) else concint(v)) for k, v in kwargs.items()}
  out = okw.pop("out", None)
  dt = okw.pop("dtype", None)
  if name == "pad":
    mode = okw.get("mode", args[2] if len(args) > 2 else "constant")
    if mode not in ("constant", "edge", "reflect", "symmetric", "wrap", "empty"):
      raise Unsupported("pad mode")
    d = func(*dargs, **{k: _dummy(v) if k == "constant_values" else v for k, v in okw.items()})
    r = func(*oargs, **okw)
  else:
    d = func(*dargs, **okw)
    r = func(*oargs, **okw)

  def fin(o, dd):
    if isinstance(o, (list, tuple)):
      return type(o)(fin(a, b) for a, b in zip(o, dd))
    if isinstance(o, np.ndarray):
      t = np.asarray(dd).dtype if dt is None else ndtype(dt)
      same = True
      for x in o.flat:
        if not isinstance(x, (S, SB, C)) or (t.kind == "f" and isinstance(x, S) and x.i) or (
            t.kind == "c" and not isinstance(x, C)):
          same = False
          break
      if not same and t.kind != "O":
        w = np.empty(o.shape, dtype=object)
        changed = False
        for idx in np.ndindex(*o.shape):
          w[idx] = cast_scalar(o[idx], t)
          if w[idx] is not o[idx]:
            changed = True
        if changed:
          return wrap(w, t)
      return wrap(o, t)
    return npscalar(o)

  res = fin(r, d)
  if out is not None:
    out[...] = res
    return out
  return res


def f_sum(a, axis=None, dtype=None, out=None, keepdims=np._NoValue, initial=np._NoValue, where=np._NoValue):
  kw = dict(axis=axis)
  if dtype is not None:
    kw["dtype"] = dtype
  if keepdims is not np._NoValue:
    kw["keepdims"] = keepdims
  if initial is not np._NoValue:
    kw["initial"] = initial
  if where is not np._NoValue:
    kw["where"] = where
  return array_ufunc(np.add, "reduce", (asarray(a),), dict(kw, out=out))


def _red(ufunc):
  def f(a, axis=None, out=None, keepdims=np._NoValue, initial=np._NoValue, where=np._NoValue, dtype=None):
    kw = dict(axis=axis)
    if dtype is not None:
      kw["dtype"] = dtype
    if keepdims is not np._NoValue:
      kw["keepdims"] = keepdims
    if initial is not np._NoValue:
      kw["initial"] = initial
    if where is not np._NoValue:
      kw["where"] = where
    return array_ufunc(ufunc, "reduce", (asarray(a),), dict(kw, out=out))
  return f


def _count(a, axis):
  if axis is None:
    return a.size
  axes = axis if isinstance(axis, tuple) else (axis,)
  n = 1
  for i in axes:
    n *= a.shape[i]
  return n


def f_mean(a, axis=None, dtype=None, out=None, keepdims=np._NoValue, where=np._NoValue):
  a = asarray(a)
  if where is not np._NoValue:
    raise Unsupported("mean where")
  d = np.mean(_dummy(a), axis=axis, **({} if dtype is None else {"dtype": ndtype(dtype)})) if a.size else None
  if d is not None and np.asarray(d).dtype.kind == "f" and a._dt.kind in "biu":
    a = a.astype(float)
  if out is not None:
    np.mean(_dummy(a), axis=axis, out=_dummy(out))
  s = f_sum(a, axis=axis, keepdims=keepdims)
  n = _count(a, axis)
  if n == 0:
    r = full(np.shape(s), NAN)
    r = r if r.ndim else r[()]
  else:
    r = array_ufunc(np.true_divide, "__call__", (s, n), {})
  if out is not None:
    out[...] = r
    return out
  return r


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=np._NoValue, **k):
  a = asarray(a)
  m = f_mean(a, axis=axis, keepdims=True)
  d = np.subtract(a, m)
  d2 = np.multiply(d, np.conjugate(d)).real if a._dt.kind == "c" else np.multiply(d, d)
  s = f_sum(d2, axis=axis, keepdims=keepdims)
  n = _count(a, axis) - ddof
  r = array_ufunc(np.true_divide, "__call__", (s, n), {})
  if out is not None:
    out[...] = r
    return out
  return r


def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=np._NoValue, **k):
  r = np.sqrt(f_var(a, axis=axis, ddof=ddof, keepdims=keepdims))
  if out is not None:
    out[...] = r
    return out
  return r


def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
  a = asarray(a)
  if a._dt.kind == "b":
    a = a.astype(float)
  if axis is None:
    s = f_sort(a.reshape(-1), 0)
    n = s.size
    if n == 0 or k_isnan(s[n - 1]):
      # sorting puts nan last
      return np.float64(NAN)
    r = (s[(n - 1) // 2] + s[n // 2]) / 2
    return r
  p = np.moveaxis(plain(a), axis, -1)
  r = np.empty(p.shape[:-1], dtype=object)
  for idx in np.ndindex(*r.shape):
    r[idx] = cast_scalar(f_median(wrap(p[idx], a._dt)), np.dtype(float))
  r = wrap(r, float)
  return np.expand_dims(r, axis) if keepdims else r


def f_nan(red, empty_ok=True):
  def f(a, axis=None, **k):
    a = asarray(a)
    if a._dt.kind not in "fc":
      return red(a, axis=axis)
    if axis is None:
      if not a.size and not empty_ok:
        raise ValueError("zero-size array to reduction operation which has no identity")
      items = [x for x in plain(a).ravel() if not k_isnan(x)]
      if not items:
        return np.float64(NAN) if red is not f_sum else S(0, False)
      return red(asarray(items))
    p = np.moveaxis(plain(a), axis, -1)
    r = np.empty(p.shape[:-1], dtype=object)
    for idx in np.ndindex(*r.shape):
      r[idx] = cast_scalar(f(wrap(np.array(p[idx], dtype=object), a._dt)), np.dtype(float))
    return wrap(r, float)
  return f


def f_cum(ufunc, a, axis=None, dtype=None, out=None):
  a = asarray(a)
  if axis is None:
    a, axis = a.reshape(-1), 0
  kw = {"axis": axis}
  if dtype is not None:
    kw["dtype"] = dtype
  if a._dt.kind == "b":
    a = a.astype(int)
  return array_ufunc(ufunc, "accumulate", (a,), dict(kw, out=out))


def f_arg1(items, sgn):
  if not len(items):
    raise ValueError("attempt to get argmax of an empty sequence" if sgn > 0 else
                     "attempt to get argmin of an empty sequence")
  for i, x in enumerate(items):
    if k_isnan(x):
      return i
  b = 0
  for i in range(1, len(items)):
    x, y = num(items[i]), num(items[b])
    c = _lt(y, x) if sgn > 0 else _lt(x, y)
    if bool(c):
      b = i
  return b


def f_arg(a, axis=None, sgn=1, out=None, keepdims=False, **k):
  a = asarray(a)
  p = plain(a)
  if axis is None:
    return np.int64(f_arg1(list(p.ravel()), sgn))
  p = np.moveaxis(p, axis, -1)
  r = np.empty(p.shape[:-1], dtype=int)
  for idx in np.ndindex(*r.shape):
    r[idx] = f_arg1(list(p[idx]), sgn)
  return from_concrete(r)


def _argsort1(items):
  """stable insertion sort, forking on comparisons; nan last"""
  order = []
  for i in range(len(items)):
    x = num(items[i])
    j = len(order)
    while j > 0:
      y = num(items[order[j - 1]])
      if k_isnan(x):
        break
      if k_isnan(y) or bool(_lt(x, y)):
        j -= 1
      else:
        break
    order.insert(j, i)
  return order


def f_argsort(a, axis=-1, kind=None, order=None, **k):
  a = asarray(a)
  p = plain(a)
  if axis is None or p.ndim <= 1:
    # numpy's default sort is not stable, ties in any order
    return from_concrete(np.array(_argsort1(list(p.ravel())), dtype=int))
  p = np.moveaxis(p, axis, -1)
  r = np.empty(p.shape, dtype=int)
  for idx in np.ndindex(*p.shape[:-1]):
    r[idx] = _argsort1(list(p[idx]))
  return from_concrete(np.moveaxis(r, -1, axis))


def f_sort(a, axis=-1, kind=None, order=None, **k):
  a = asarray(a)
  if axis is None:
    a, axis = a.reshape(-1), 0
  p = np.moveaxis(plain(a), axis, -1)
  r = np.empty(p.shape, dtype=object)
  for idx in np.ndindex(*p.shape[:-1]):
    items = list(p[idx])
    o = _argsort1(items)
    for n, i in enumerate(o):
      r[idx + (n,)] = items[i]
  return wrap(np.moveaxis(r, -1, axis), a._dt)


def f_searchsorted(a, v, side="left", sorter=None):
  a = asarray(a)
  items = list(plain(a))

  def one(x):
    x = num(x)
    for i, y in enumerate(items):
      y = num(y)
      if bool(_le(x, y) if side == "left" else _lt(x, y)):
        return i
    return len(items)
  if isinstance(v, (np.ndarray, list, tuple)) and np.ndim(v):
    vv = asarray(v)
    r = np.empty(vv.shape, dtype=int)
    for idx in np.ndindex(*vv.shape):
      r[idx] = one(plain(vv)[idx])
    return from_concrete(r)
  return np.int64(one(v))


def f_clip(a, a_min=None, a_max=None, out=None, **k):
  a_min = k.pop("min", a_min)
  a_max = k.pop("max", a_max)
  if a_min is None and a_max is None:
    raise ValueError("One of max or min must be given")
  if out is None and isinstance(a, (S, float, int)) and not isinstance(a_min, np.ndarray) and not isinstance(a_max, np.ndarray):
    r = a
    if a_min is not None:
      r = smax(r, a_min)
    if a_max is not None:
      r = smin(r, a_max)
    dt = _infer([x for x in (a, a_min, a_max) if x is not None])
    return npscalar(cast_scalar(r, dt))
  a = _norm_in(a)
  r = a
  if a_min is not None:
    r = array_ufunc(np.maximum, "__call__", (r, a_min), {})
  if a_max is not None:
    r = array_ufunc(np.minimum, "__call__", (r, a_max), {})
  if out is not None:
    np.clip(_dummy(a), *[None if x is None else _dummy(x) for x in (a_min, a_max)], out=_dummy(out))
    out[...] = r
    return out
  return r


def f_round(a, decimals=0, out=None):
  if isinstance(a, S) and decimals == 0:
    return S(a.rint().v, True) / 1 if not a.i else a
  a = asarray(a)
  if decimals == 0:
    r = array_ufunc(np.rint, "__call__", (a,), {}) if a._dt.kind == "f" else a.copy()
  else:
    m = S(frac(10)**int(decimals), False)
    r = np.rint(a * m) / m
  if out is not None:
    out[...] = r
    return out
  return r


def f_where(c, x=None, y=None):
  c = _norm_in(c)
  if x is None:
    return asarray(c).nonzero()
  c, x, y = asarray(c), _norm_in(x), _norm_in(y)
  d = np.where(_dummy(c), _dummy(x), _dummy(y))
  cc, xx, yy = np.broadcast_arrays(_obj(c), _obj(x), _obj(y))
  r = np.empty(cc.shape, dtype=object)
  for idx in np.ndindex(*cc.shape):
    t = tb(cc[idx])
    a, b = cast_scalar(xx[idx], d.dtype), cast_scalar(yy[idx], d.dtype)
    r[idx] = cast_scalar(s_ite(t, a, b) if d.dtype.kind != "O" else (a if bool(t) else b), d.dtype)
  return wrap(r, d.dtype)


def f_interp(x, xp, fp, left=None, right=None, period=None):
  if period is not None:
    raise Unsupported("interp period")
  xp, fp = asarray(xp), asarray(fp)
  if xp.ndim != 1 or fp.ndim != 1:
    raise ValueError("object too deep for desired array")
  if xp.size != fp.size:
    raise ValueError("fp and xp are not of the same length.")
  if xp.size == 0:
    raise ValueError("array of sample points is empty")
  X = [num(v) for v in plain(xp)]
  F = [num(v) for v in plain(fp)]

  def one(v):
    v = num(v)
    if k_isnan(v):
      return NAN
    if bool(_lt(v, X[0])):
      return F[0] if left is None else left
    if bool(_lt(X[-1], v)):
      return F[-1] if right is None else right
    for i in range(len(X) - 1):
      if bool(_lt(v, X[i + 1])):
        # both end points are exact
        dx = X[i + 1] - X[i]
        return F[i] + (F[i + 1] - F[i]) * ((v - X[i]) / dx)
    return F[-1]

  if isinstance(x, (np.ndarray, list, tuple)) and (np.ndim(x) or isinstance(x, SymArray)):
    xx = asarray(x)
    r = np.empty(xx.shape, dtype=object)
    for idx in np.ndindex(*xx.shape):
      r[idx] = cast_scalar(one(plain(xx)[idx]), np.dtype(float))
    return wrap(r, float) if xx.ndim else npscalar(r[()])
  return one(x)


def f_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
  a = asarray(a)
  if a.ndim == 0:
    raise ValueError("diff requires input that is at least one dimensional")
  parts = []
  for v, side in ((prepend, 0), (append, 1)):
    if v is not np._NoValue:
      v = asarray(v)
      if v.ndim == 0:
        s = list(a.shape)
        s[axis] = 1
        v = full(s, v[()])
      a = np.concatenate((v, a) if side == 0 else (a, v), axis=axis)
  for _ in range(int(n)):
    s1 = [slice(None)] * a.ndim
    s2 = [slice(None)] * a.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    u, v = a[tuple(s1)], a[tuple(s2)]
    a = np.not_equal(u, v) if a._dt.kind == "b" else np.subtract(u, v)
  return a


def f_dot(a, b, out=None):
  a_, b_ = _norm_in(a), _norm_in(b)
  if np.ndim(a_) == 0 or np.ndim(b_) == 0:
    return np.multiply(a_, b_) if out is None else np.multiply(a_, b_, out=out)
  a_, b_ = asarray(a_), asarray(b_)
  if b_.ndim > 2 or a_.ndim > 2:
    raise Unsupported("dot of high-dimensional arrays")
  return _matmul(a_, b_, out)


def f_flatnonzero(a):
  return from_concrete(np.flatnonzero(conc_mask(asarray(a))))


def f_count_nonzero(a, axis=None, keepdims=False):
  a = asarray(a)
  m = np.not_equal(a, 0) if a._dt.kind != "b" else a
  return f_sum(m.astype(int), axis=axis)


def f_result_type(*args):
  def c(x):
    if isinstance(x, SymArray):
      return np.ones(x.shape if x.ndim == 0 else (1,) * x.ndim, x._dt) if x.ndim else x._dt.type(1)
    if isinstance(x, (S, SB, C)):
      return _dummy(x)
    if isinstance(x, type) and x in SHADOW:
      return SHADOW[x]
    return x
  return np.result_type(*[c(a) for a in args])


def f_unwrap(p, discont=None, axis=-1, period=2 * math.pi):
  """numpy's own algorithm, on symbolic values"""
  p = asarray(p)
  if p.ndim != 1:
    raise Unsupported("unwrap of matrix")
  from fractions import Fraction
  per = num(period)
  half = per / 2
  out = []
  prev = None
  corr = S(0, False)
  disc = half if discont is None else num(discont)
  for v in plain(p):
    v = num(v)
    if prev is not None:
      d = v - prev
      m = (d + half) % per - half
      m = s_ite(s_and(m == -half, d > 0), half, m)
      c = m - d
      c = s_ite(abs(d) < disc, S(0, False), c)
      corr = corr + c
    out.append(v + corr)
    prev = v
  return asarray(out).astype(float) if out else zeros(0)


def f_angle(z, deg=False):
  z = _norm_in(z)
  if not isinstance(z, np.ndarray):
    c = num(z)
    c = c if isinstance(c, C) else C(c, S(0, False))
    return trans.arctan2(c.im, c.re)
  r = np.empty(z.shape, dtype=object)
  p = plain(asarray(z))
  for idx in np.ndindex(*z.shape):
    c = num(p[idx])
    c = c if isinstance(c, C) else C(c, S(0, False))
    v = trans.arctan2(c.im, c.re)
    r[idx] = cast_scalar(v if not deg else v * S(180 / trans.PI, False), np.dtype(float))
  return wrap(r, float)


def f_real(x):
  if isinstance(x, (S, SB)):
    return x
  if isinstance(x, C):
    return x.re
  return asarray(x).real


def f_imag(x):
  if isinstance(x, (S, SB)):
    return S(0, False)
  if isinstance(x, C):
    return x.im
  return asarray(x).imag


def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
  close = np.less_equal(np.abs(np.subtract(a, b)), atol + rtol * np.abs(b))
  if builtins.any(is_special(v) for x in (a, b) for v in plain(asarray(x)).ravel()):
    # infinities are only close to themselves
    close = np.where(np.logical_and(np.isfinite(a), np.isfinite(b)), close, np.equal(a, b))
    if equal_nan:
      close = np.logical_or(close, np.logical_and(np.isnan(a), np.isnan(b)))
  return close


def f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
  return bool(f_isclose(a, b, rtol, atol).all()) if isinstance(f_isclose(a, b, rtol, atol), SymArray) else bool(
      f_isclose(a, b, rtol, atol))


def f_array_equal(a, b, equal_nan=False):
  a, b = asarray(a), asarray(b)
  if a.shape != b.shape:
    return False
  return bool(s_and(*[k_eq(x, y) for x, y in zip(plain(a).ravel(), plain(b).ravel())]))


def f_isin(a, b, **k):
  a, b = asarray(a), list(plain(asarray(b)).ravel())
  r = np.empty(a.shape, dtype=object)
  for idx in np.ndindex(*a.shape):
    r[idx] = s_or(*[k_eq(plain(a)[idx], y) for y in b])
  return wrap(r, bool)


def f_outer(a, b, out=None):
  a, b = asarray(a).reshape(-1, 1), asarray(b).reshape(1, -1)
  return np.multiply(a, b) if out is None else np.multiply(a, b, out=out)


def f_ptp(a, axis=None, out=None, **k):
  a = asarray(a)
  return a.max(axis=axis) - a.min(axis=axis)


def f_average(a, axis=None, weights=None, returned=False, **k):
  if weights is None:
    return f_mean(a, axis=axis)
  a, w = asarray(a), asarray(weights)
  if axis is not None and a.ndim > 1:
    raise Unsupported("weighted average along an axis")
  s = f_sum(w)
  if bool(s == 0):
    raise ZeroDivisionError("Weights sum to zero, can't be normalized")
  return f_sum(a * w) / s


def f_quantile(a, q, axis=None, **k):
  a = asarray(a)
  if axis is not None and a.ndim > 1:
    raise Unsupported("quantile along axis")
  s = f_sort(a.reshape(-1), 0)
  n = s.size

  def one(qq):
    if n and k_isnan(s[n - 1]):
      return np.float64(NAN)
    pos = num(qq) * (n - 1)
    i = int(pos.__floor__())
    j = builtins.min(i + 1, n - 1)
    return s[i] + (s[j] - s[i]) * (pos - i)
  if np.ndim(q):
    return asarray([one(x) for x in asarray(q)])
  return one(q)


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
  x = asarray(x)
  r = np.empty(x.shape, dtype=object)
  big = np.finfo(float).max
  for idx in np.ndindex(*x.shape):
    v = plain(x)[idx]
    if k_isnan(v):
      v = nan
    elif isinstance(v, float):
      v = (big if posinf is None else posinf) if v > 0 else (-big if neginf is None else neginf)
    r[idx] = cast_scalar(v, x._dt)
  w = wrap(r, x._dt)
  if not copy:
    x[...] = w
    return x
  return w if w.ndim else w[()]


def f_trapz(y, x=None, dx=1.0, axis=-1):
  y = asarray(y)
  d = dx if x is None else f_diff(x)
  return f_sum(d * (y[1:] + y[:-1]) / 2)


def f_polyfit(x, y, deg, **k):
  if int(deg) != 1:
    raise Unsupported("polyfit degree")
  from .stubs import ols
  m, q = ols(list(plain(asarray(x))), list(plain(asarray(y))))
  return asarray([m, q])


def f_polyval(p, x):
  r = S(0, False)
  for c in asarray(p):
    r = np.add(np.multiply(r, x), c)
  return r


def f_convolve(a, v, mode="full"):
  a, v = asarray(a), asarray(v)
  if a.size == 0 or v.size == 0:
    raise ValueError("v cannot be empty")
  if v.size > a.size:
    a, v = v, a
  n, m = a.size, v.size
  rdt = np.result_type(a._dt, v._dt)
  full_ = []
  for k in range(n + m - 1):
    acc = S(0, True)
    for i in range(n):
      j = k - i
      if 0 <= j < m:
        acc = _addk(acc, _mulk(plain(a)[i], plain(v)[j]))
    full_.append(cast_scalar(acc, rdt))
  r = np.empty(len(full_), dtype=object)
  r[:] = full_
  if mode == "same":
    st = (m - 1) // 2
    r = r[st:st + n]
  elif mode == "valid":
    r = r[m - 1:n]
  elif mode != "full":
    raise ValueError("mode")
  return wrap(r, rdt)


def f_correlate(a, v, mode="valid"):
  v = asarray(v)
  return f_convolve(a, np.conjugate(v)[::-1], mode=mode)


def f_copyto(dst, src, casting="same_kind", where=True):
  if where is True:
    dst[...] = src
  else:
    dst[asarray(where)] = src


def f_apply_along_axis(func1d, axis, arr, *a, **k):
  arr = asarray(arr)
  p = np.moveaxis(plain(arr), axis, -1)
  outs = [func1d(wrap(np.array(p[idx], dtype=object), arr._dt), *a, **k) for idx in np.ndindex(*p.shape[:-1])]
  r = asarray([o if isinstance(o, np.ndarray) else o for o in outs])
  r = r.reshape(p.shape[:-1] + r.shape[1:])
  if r.ndim == p.ndim:
    r = wrap(np.moveaxis(plain(r), -1, axis), r._dt)
  return r


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
  s = f_sort(asarray(a).reshape(-1), 0)
  out = []
  for v in s:
    if out and k_isnan(out[-1]):
      # nans are last, and one is kept
      break
    if not out or bool(s_not(k_eq(out[-1], v))):
      out.append(v)
  if return_index or return_inverse or return_counts:
    raise Unsupported("unique with indices")
  return asarray(out) if out else zeros(0, s.dtype)


def f_argwhere(a):
  return from_concrete(np.argwhere(conc_mask(asarray(a))))


def f_gradient(f, *a, **k):
  f = asarray(f)
  if a and np.ndim(a[0]) == 0:
    h = a[0]
  elif not a:
    h = 1
  else:
    raise Unsupported("gradient with coordinates")
  n = f.size
  return asarray([(f[1] - f[0]) / h] + [(f[i + 1] - f[i - 1]) / (2 * h) for i in range(1, n - 1)] +
                 [(f[-1] - f[-2]) / h])


def f_piecewise_select(condlist, choicelist, default=0):
  r = default
  for c, v in reversed(list(zip(condlist, choicelist))):
    r = f_where(c, v, r)
  return r


def f_einsum(sub, *ops, **k):
  raise Unsupported("einsum")


def f_ravel_shape(x):
  return asarray(x)


def f_sinc(x):
  raise Unsupported("sinc")


FUNCS = {
    "sum": f_sum, "mean": f_mean, "var": f_var, "std": f_std, "average": f_average, "median": f_median,
    "prod": _red(np.multiply), "max": _red(np.maximum), "amax": _red(np.maximum), "min": _red(np.minimum),
    "amin": _red(np.minimum), "any": _red(np.logical_or), "all": _red(np.logical_and), "ptp": f_ptp,
    "nanmean": f_nan(f_mean), "nanmax": f_nan(_red(np.maximum), False), "nanmin": f_nan(_red(np.minimum), False),
    "nansum": f_nan(f_sum), "nanmedian": f_nan(f_median), "nanstd": f_nan(f_std), "nanvar": f_nan(f_var),
    "cumsum": lambda a, axis=None, dtype=None, out=None: f_cum(np.add, a, axis, dtype, out),
    "cumprod": lambda a, axis=None, dtype=None, out=None: f_cum(np.multiply, a, axis, dtype, out),
    "argmax": lambda a, axis=None, out=None, **k: f_arg(a, axis, 1),
    "argmin": lambda a, axis=None, out=None, **k: f_arg(a, axis, -1),
    "argsort": f_argsort, "sort": f_sort, "searchsorted": f_searchsorted, "clip": f_clip, "round": f_round,
    "around": f_round, "round_": f_round, "where": f_where, "interp": f_interp, "diff": f_diff, "dot": f_dot,
    "inner": f_dot, "vdot": f_dot, "flatnonzero": f_flatnonzero, "nonzero": lambda a: asarray(a).nonzero(),
    "count_nonzero": f_count_nonzero, "result_type": f_result_type, "unwrap": f_unwrap, "angle": f_angle,
    "real": f_real, "imag": f_imag, "isclose": f_isclose, "allclose": f_allclose, "array_equal": f_array_equal,
    "isin": f_isin, "in1d": f_isin, "outer": f_outer, "quantile": f_quantile,
    "percentile": lambda a, q, axis=None, **k: f_quantile(a, np.true_divide(q, 100), axis),
    "nan_to_num": f_nan_to_num, "trapz": f_trapz, "polyfit": f_polyfit, "polyval": f_polyval,
    "convolve": f_convolve, "correlate": f_correlate, "copyto": f_copyto, "apply_along_axis": f_apply_along_axis,
    "unique": f_unique, "argwhere": f_argwhere, "gradient": f_gradient, "select": f_piecewise_select,
    "extract": lambda c, a: asarray(a)[asarray(c)], "compress": lambda c, a, axis=None, out=None: asarray(a).compress(c, axis),
    "empty_like": _like(empty), "zeros_like": _like(zeros), "ones_like": _like(ones),
    "full_like": _like(lambda s, v, dtype=None: full(s, v, dtype)),
    "linspace": linspace, "fix": lambda a, out=None: np.trunc(a) if out is None else np.trunc(a, out=out),
    "isreal": lambda a: np.equal(f_imag(a), 0), "isneginf": lambda a: np.logical_and(np.isinf(a), np.less(a, 0)),
    "can_cast": lambda a, b, casting="safe": np.can_cast(dtype_of(a) if isinstance(a, (S, SymArray)) else SHADOW.get(a, a),
                                                         ndtype(b), casting),
    "common_type": lambda *a: np.common_type(*[_dummy(asarray(x)) for x in a]),
}


def shapeq(name, args, kwargs):
  if name == "ndim":
    return asarray(args[0]).ndim if not isinstance(args[0], np.ndarray) else args[0].ndim
  if name == "shape":
    return asarray(args[0]).shape if not isinstance(args[0], np.ndarray) else args[0].shape
  if name == "size":
    a = asarray(args[0])
    ax = kwargs.get("axis", args[1] if len(args) > 1 else None)
    return a.size if ax is None else a.shape[ax]
  if name == "iscomplexobj":
    return asarray(args[0])._dt.kind == "c"
  if name == "isrealobj":
    return asarray(args[0])._dt.kind != "c"
  if name == "isscalar":
    return isinstance(args[0], (S, SB, C))
  if name in ("shares_memory", "may_share_memory"):
    return getattr(np, name)(plain(asarray(args[0])), plain(asarray(args[1])))
  if name == "iterable":
    return isinstance(args[0], np.ndarray) and args[0].ndim > 0
  raise Unsupported(name)


def array_function(func, args, kwargs):
  name = func.__name__
  mod = getattr(func, "__module__", "numpy") or "numpy"
  kwargs = {k: v for k, v in kwargs.items() if not (k == "out" and v is None)}
  if mod in ("numpy", "numpy.core", "numpy.lib") or mod.startswith("numpy.core") or mod.startswith("numpy.lib"):
    if name in FUNCS:
      return FUNCS[name](*args, **kwargs)
    if name in SHAPEQ:
      return shapeq(name, args, kwargs)
    if name in STRUCT:
      return f_struct(func, args, kwargs)
    if name == "as_strided":
      return as_strided(*args, **kwargs)
    if name == "sliding_window_view":
      return sliding_window_view(*args, **kwargs)
  if mod.startswith("numpy.linalg") and name in LINALG:
    return LINALG[name](*args, **kwargs)
  return _fallback(func, args, kwargs)


def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
  from numpy.lib import stride_tricks
  x = asarray(x)
  p = plain(x)
  shape = x.shape if shape is None else shp(shape)
  strides = p.strides if strides is None else tuple(int(s) for s in np.ravel(const_array(asarray(strides))))
  if any(s < 0 for s in shape):
    raise ValueError("negative dimensions are not allowed")
  # every addressed cell must lie inside the buffer
  if all(s > 0 for s in shape) and len(strides) == len(shape):
    lo = sum(min(0, (n - 1) * s) for n, s in zip(shape, strides))
    hi = sum(max(0, (n - 1) * s) for n, s in zip(shape, strides))
    base = _root(p)
    b0 = base.__array_interface__["data"][0]
    x0 = p.__array_interface__["data"][0]
    ext = sum((n - 1) * abs(s) for n, s in zip(base.shape, base.strides)) + 8 if base.size else 0
    if p.size == 0 or x0 + lo < b0 or x0 + hi + 8 > b0 + ext or any(s % 8 for s in strides):
      raise OutOfBounds(f"strided view outside its buffer: shape={shape} strides={strides} size={p.shape}")
  r = stride_tricks.as_strided(p, shape=shape, strides=strides, writeable=writeable)
  return wrap(r, x._dt)


class OutOfBounds(Exception):
  """a strided view reads memory outside the array"""


def sliding_window_view(x, window_shape, axis=None, *, subok=False, writeable=False):
  from numpy.lib import stride_tricks
  x = asarray(x)
  r = stride_tricks.sliding_window_view(plain(x), shp(window_shape) if np.ndim(window_shape) else int(window_shape),
                                        axis=axis, writeable=writeable)
  return wrap(r, x._dt)


def l_norm(x, ord=None, axis=None, keepdims=False):
  x = asarray(x)
  a = np.abs(x)
  if ord is None or ord == 2:
    return np.sqrt(f_sum(np.multiply(a, a), axis=axis, keepdims=keepdims))
  if ord == 1 and (x.ndim == 1 or isinstance(axis, int)):
    return f_sum(a, axis=axis, keepdims=keepdims)
  if ord == INF and x.ndim == 1:
    return a.max()
  raise Unsupported("norm order")


LINALG = {"norm": l_norm}
