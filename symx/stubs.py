"""Exact or unconstrained stand-ins for numerical libraries (symbolic mode only)."""
import math
from fractions import Fraction

import numpy as np

import z3

from . import arr, poly, trans
from .core import (C, NAN, S, SB, Unsupported, ex, frac, num, s_and, s_ite)


# ------------------------------------------------------ linear regression ---
def ols(x, y):
  """slope and intercept of the least-squares line (minimum-norm when x is constant)"""
  x, y = [num(v) for v in x], [num(v) for v in y]
  if any(isinstance(v, float) for v in x + y):
    raise ValueError("Input contains NaN or infinity")
  n = len(x)
  mx = sum(x[1:], x[0]) / n
  my = sum(y[1:], y[0]) / n
  sxx = S(0, False)
  sxy = S(0, False)
  for a, b in zip(x, y):
    sxx = sxx + (a - mx) * (a - mx)
    sxy = sxy + (a - mx) * (b - my)
  if bool(sxx == 0):
    return S(0, False), my
  m = sxy / sxx
  return m, my - m * mx


class LinearRegression:
  """exact ordinary least squares on one feature"""

  def __init__(self, *, fit_intercept=True, copy_X=True, n_jobs=None, positive=False):
    self.fit_intercept, self.copy_X, self.n_jobs, self.positive = fit_intercept, copy_X, n_jobs, positive

  def get_params(self, deep=True):
    return dict(fit_intercept=self.fit_intercept, copy_X=self.copy_X, n_jobs=self.n_jobs, positive=self.positive)

  def set_params(self, **k):
    for n, v in k.items():
      setattr(self, n, v)
    return self

  def fit(self, X, y, sample_weight=None):
    X, y = arr.asarray(X), arr.asarray(y)
    if sample_weight is not None or not self.fit_intercept or self.positive:
      raise Unsupported("weighted regression")
    if X.ndim != 2:
      raise ValueError("Expected 2D array, got 1D array instead")
    if X.shape[0] != y.shape[0]:
      raise ValueError(f"Found input variables with inconsistent numbers of samples: [{X.shape[0]}, {y.shape[0]}]")
    if X.shape[0] < 1:
      raise ValueError("Found array with 0 sample(s)")
    if X.shape[1] != 1 or y.ndim > 2 or (y.ndim == 2 and y.shape[1] != 1):
      raise Unsupported("multivariate regression")
    m, q = ols(list(arr.plain(X)[:, 0]), list(arr.plain(y).reshape(-1)))
    self.n_features_in_ = 1
    if y.ndim == 2:
      self.coef_ = arr.asarray([[m]])
      self.intercept_ = arr.asarray([q])
    else:
      self.coef_ = arr.asarray([m])
      self.intercept_ = arr.npscalar(q)
    return self

  def predict(self, X):
    X = arr.asarray(X)
    if X.ndim != 2 or X.shape[1] != 1:
      raise ValueError("Expected 2D array, got 1D array instead")
    if self.coef_.ndim == 2:
      return np.add(np.multiply(X, self.coef_[0, 0]), self.intercept_[0])
    return np.add(np.multiply(X[:, 0], self.coef_[0]), self.intercept_)


# ------------------------------------------------------------------- DFT -----
def _cis(k, n):
  """exp(2 pi i k/n) as exact/rational constants"""
  k %= n
  q = Fraction(4 * k, n)
  exact = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}
  if q.denominator == 1:
    a, b = exact[int(q)]
    return S(a, False), S(b, False)
  a = 2 * math.pi * k / n
  return S(frac(round(math.cos(a), 17)), False), S(frac(round(math.sin(a), 17)), False)


def _snap(v):
  """without the terms that are only there because the constants are rounded"""
  if not isinstance(v, S):
    return v
  p = {m: c for m, c in poly.norm(z3.simplify(v.r)).items() if abs(c) > Fraction(1, 10**10)}
  return S(poly.to_expr(p), False)


def _dft(items, n, sign):
  out = []
  items = [num(v) for v in items[:n]]
  for k in range(n):
    acc = C(0, 0)
    for j, v in enumerate(items):
      c, s = _cis(k * j, n)
      acc = acc + v * C(c, s if sign > 0 else -s)
    out.append(acc)
  if ex().opts.get("snap"):
    out = [C(_snap(z.re), _snap(z.im)) for z in out]
  return out


def _vec(x):
  x = arr.asarray(x)
  if x.ndim != 1:
    raise Unsupported("transform of a matrix")
  return list(arr.plain(x))


def fft(a, n=None, axis=-1, norm=None, **k):
  v = _vec(a)
  n = len(v) if n is None else int(n)
  if n < 1:
    raise ValueError(f"Invalid number of FFT data points ({n}) specified.")
  return arr.asarray(_dft(v, n, -1)).astype(complex)


def rfft(a, n=None, axis=-1, norm=None, **k):
  v = _vec(a)
  n = len(v) if n is None else int(n)
  if n < 1:
    raise ValueError(f"Invalid number of FFT data points ({n}) specified.")
  r = _dft(v, n, -1)[:n // 2 + 1]
  return arr.asarray(r).astype(complex)


def ifft(a, n=None, axis=-1, norm=None, **k):
  v = _vec(a)
  n = len(v) if n is None else int(n)
  if n < 1:
    raise ValueError(f"Invalid number of FFT data points ({n}) specified.")
  return arr.asarray([x / n for x in _dft(v, n, 1)]).astype(complex)


def irfft(a, n=None, axis=-1, norm=None, **k):
  v = [num(i) for i in _vec(a)]
  v = [x if isinstance(x, C) else C(x, S(0, False)) for x in v]
  n = 2 * (len(v) - 1) if n is None else int(n)
  if n < 1:
    raise ValueError(f"Invalid number of FFT data points ({n}) specified.")
  m = n // 2 + 1
  v = (v + [C(0, 0)] * m)[:m]
  full = [None] * n
  full[0] = C(v[0].re, S(0, False))
  for i in range(1, m):
    if 2 * i == n:
      full[i] = C(v[i].re, S(0, False))
    else:
      full[i] = v[i]
      full[n - i] = v[i].conjugate()
  return arr.asarray([(x / n).re for x in _dft(full, n, 1)]).astype(float)


def rfftfreq(n, d=1.0, **k):
  n = int(n)
  return arr.asarray([S(i, True) / (num(d) * n) for i in range(n // 2 + 1)])


# --------------------------------------------------------------- optimiser ---
class OptResult(dict):
  __getattr__ = dict.__getitem__

  def __setattr__(self, k, v):
    self[k] = v


LS = {"calls": []}  # hooks of the running harness


def least_squares(fun, x0, jac="2-point", bounds=(-np.inf, np.inf), method="trf", args=(), kwargs=None, **k):
  """any point within the bounds (the optimiser's documented contract)"""
  x0 = arr.asarray(x0).astype(float)
  x0 = x0.reshape(-1)
  n = x0.size
  lb, ub = (arr.asarray(b).astype(float) for b in bounds)
  lb = list(arr.plain(arr.asarray(np.broadcast_to(arr.plain(lb), (n,)).tolist() if lb.ndim == 0 else lb)))
  ub = list(arr.plain(arr.asarray(np.broadcast_to(arr.plain(ub), (n,)).tolist() if ub.ndim == 0 else ub)))
  if len(lb) != n or len(ub) != n:
    raise ValueError("Inconsistent shapes between bounds and `x0`.")
  lt, le = arr.KERNELS["less"], arr.KERNELS["less_equal"]
  if not bool(s_and(*[lt(a, b) for a, b in zip(lb, ub)])):
    raise ValueError("Each lower bound must be strictly less than each upper bound.")
  if not bool(s_and(*[s_and(le(a, x), le(x, b)) for a, x, b in zip(lb, arr.plain(x0), ub)])):
    raise ValueError("`x0` is infeasible.")
  LS["calls"].append(dict(fun=fun, x0=x0, bounds=(lb, ub), args=args, kwargs=kwargs or {}, opts=k))
  E = ex()
  xs = []
  for i, (a, b) in enumerate(zip(lb, ub)):
    v = S(E.fresh("opt"), False)
    c = s_and(le(a, v), le(v, b))
    E.add(c.e if isinstance(c, SB) else __import__("z3").BoolVal(c))
    xs.append(v)
  x = arr.asarray(xs)
  f = fun(x, *args, **(kwargs or {}))
  return OptResult(x=x, fun=f, success=True, status=1, message="", cost=S(E.fresh("cost"), False), nfev=1, jac=None,
                   active_mask=None, optimality=0.0, grad=None, njev=None)


def pinv(*a, **k):
  raise Unsupported("pinv")


def lstsq(*a, **k):
  raise Unsupported("lstsq")


def lombscargle(x, y, freqs, *a, **k):
  """an unspecified non-negative function of the angular frequency"""
  freqs = arr.asarray(freqs)
  if freqs.ndim != 1 or freqs.size == 0 and False:
    raise ValueError("Input arrays should have exactly one dimension")
  sig = list(arr.plain(arr.asarray(x))) + list(arr.plain(arr.asarray(y)))
  return arr.asarray([trans.opaque("lomb" + repr(sorted(k.items())), w, *sig, pos=True)
                      for w in arr.plain(freqs)]).astype(float) if freqs.size else arr.zeros(0)


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
  """running integral of a sequence by the trapezoidal rule"""
  y = arr.asarray(y)
  if y.ndim != 1:
    raise Unsupported("cumulative_trapezoid of an array of many dimensions")
  n = len(y)
  if x is not None:
    x = arr.asarray(x)
    if x.shape[-1:] != (n,):
      raise ValueError("If given, length of x along axis must be the same as y.")
    d = np.diff(x)
  else:
    d = [dx] * (n - 1)
  v = arr.plain(y)
  acc, out = S(0, False), []
  if initial is not None:
    out.append(initial)
  for i in range(n - 1):
    acc = acc + num(arr.plain(arr.asarray(d))[i]) * (num(v[i]) + num(v[i + 1])) / 2
    out.append(acc)
  return arr.asarray(out).astype(float) if out else arr.zeros(0)


PATCHES = []


def install():
  import scipy.fft
  import scipy.integrate
  import scipy.optimize
  import scipy.signal
  scipy.integrate.cumulative_trapezoid = cumulative_trapezoid
  import sklearn.linear_model
  sklearn.linear_model.LinearRegression = LinearRegression
  scipy.fft.rfft, scipy.fft.fft, scipy.fft.irfft, scipy.fft.ifft = rfft, fft, irfft, ifft
  scipy.fft.rfftfreq = rfftfreq
  scipy.optimize.least_squares = least_squares
  scipy.signal.lombscargle = lombscargle
