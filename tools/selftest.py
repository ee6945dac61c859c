"""Differential test of the numpy proxies: the same call in the symbolic world (on concrete values held as
symbolic constants) and in numpy must give the same values, dtype and shape.  python tools/selftest.py [seed]"""
import os, sys, itertools, random, warnings
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
from symx import arr, core
from symx.core import S, SB, C, Ex, Unsupported
warnings.simplefilter("ignore")
rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
Ex.cur = Ex()
Ex.cur.begin()


def conc(x):
  """value of a symbolic result"""
  if isinstance(x, (tuple, list)):
    return tuple(conc(i) for i in x)
  if isinstance(x, arr.SymArray):
    p = arr.plain(x)
    r = np.empty(p.shape, dtype=object)
    for i in np.ndindex(*p.shape):
      r[i] = conc(p[i])
    return r.astype(x._dt) if x._dt.kind != "O" else r
  if isinstance(x, SB):
    return bool(x)
  if isinstance(x, C):
    return complex(conc(x.re), conc(x.im))
  if isinstance(x, S):
    import z3
    e = z3.simplify(x.e) if hasattr(x, "e") and not isinstance(x.e, (int, float)) else x.e
    if hasattr(e, "as_fraction"):
      v = float(e.as_fraction()) if not z3.is_int_value(e) else e.as_long()
      return v
    if hasattr(e, "as_long"):
      return e.as_long()
    return float(core.num(x)) if not z3.is_expr(e) else float("nan")
  return x


def same(a, b):
  if isinstance(a, tuple) or isinstance(b, tuple):
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    return False
  if a.dtype.kind != b.dtype.kind and not {a.dtype.kind, b.dtype.kind} <= set("iu"):
    return False
  if a.dtype.kind in "fc":
    return np.allclose(a, b, equal_nan=True, rtol=1e-9, atol=1e-12)
  return np.array_equal(a, b)


def val(kind):
  if kind == "f":
    return rnd.choice([rnd.randint(-4, 4) / 2, rnd.randint(-40, 40) / 8, 0.0, float(rnd.randint(-3, 3))])
  if kind == "s":
    return rnd.choice([float("nan"), float("inf"), -float("inf"), 0.0, 1.0, -2.5, 3.0, 0.5])
  if kind == "i":
    return rnd.randint(-3, 3)
  if kind == "b":
    return rnd.random() < .5
  if kind == "c":
    return complex(rnd.randint(-3, 3), rnd.randint(-3, 3))


DT = {"f": float, "s": float, "i": int, "b": bool, "c": complex}


def array(kind, shape):
  a = np.empty(shape, dtype=DT[kind])
  for i in np.ndindex(*shape):
    a[i] = val(kind)
  return a


def lift(x):
  if isinstance(x, np.ndarray):
    return arr.from_concrete(x)
  return x


def run(name, f, args, kw):
  try:
    want = f(*args, **kw)
  except Exception as e:
    want = e
  try:
    got = conc(f(*[lift(a) for a in args], **{k: lift(v) for k, v in kw.items()}))
  except Unsupported:
    return "unsupported"
  except Exception as e:
    got = e
  if isinstance(want, Exception) or isinstance(got, Exception):
    if type(want) == type(got):
      return "ok"
    if isinstance(want, Exception) and isinstance(got, Exception):
      return "ok?"
    return f"DIFF {name} {args} {kw}\n   want {want!r}\n   got  {got!r}"
  if isinstance(want, list):
    want = tuple(want)
  if not same(want, got):
    return f"DIFF {name} {args} {kw}\n   want {want!r}\n   got  {got!r}"
  return "ok"


shapes = [(0,), (1,), (2,), (3,), (4,), (2, 2), (3, 2), (2, 0)]
RED = ["sum", "mean", "var", "std", "median", "prod", "max", "min", "any", "all", "ptp", "nanmean", "nanmax", "nanmin", "nansum", "nanmedian", "argmax", "argmin", "cumsum", "cumprod",
       "argsort", "sort", "count_nonzero", "diff"]
UN = ["abs", "sign", "floor", "ceil", "rint", "trunc", "isnan", "isfinite", "isinf", "negative", "square", "flatnonzero", "nonzero", "real", "imag", "round", "nan_to_num", "unique", "argwhere",
      "flip", "logical_not", "atleast_1d", "atleast_2d", "ravel", "squeeze", "conjugate", "signbit", "fix", "isneginf", "isreal", "zeros_like", "ones_like", "positive", "reciprocal", "absolute", "fabs"]
BIN = ["add", "subtract", "multiply", "true_divide", "floor_divide", "remainder", "fmod", "maximum", "minimum", "fmax", "fmin", "greater", "less", "equal", "not_equal", "greater_equal", "less_equal",
       "logical_and", "logical_or", "logical_xor", "isclose", "array_equal", "allclose", "outer", "hypot", "copysign", "heaviside", "divmod", "power", "append", "isin", "dot"]
res = {}
bad = {}


def record(name, r):
  k = r.split()[0]
  res.setdefault(name, {}).setdefault(k, 0)
  res[name][k] += 1
  if k == "DIFF":
    bad.setdefault(name, []).append(r)


def clear():
  Ex.cur = Ex()
  Ex.cur.begin()


def main(n=30):
  for name in RED:
    f = getattr(np, name)
    for kind in "fsib":
      for sh in shapes:
        for _ in range(max(1, n // 10)):
          a = array(kind, sh)
          record(name, run(name, f, (a,), {}))
          for ax in range(-1, len(sh)):
            record(name, run(name, f, (a,), dict(axis=ax)))
            if name in ("sum", "mean", "max", "min", "any", "all", "std", "var", "prod"):
              record(name, run(name, f, (a,), dict(axis=ax, keepdims=True)))
    clear()
  for name in UN:
    f = getattr(np, name)
    for kind in "fsibc":
      for sh in shapes:
        for _ in range(max(1, n // 10)):
          record(name, run(name, f, (array(kind, sh),), {}))
    clear()
  for name in BIN:
    f = getattr(np, name)
    for k1, k2 in itertools.product("fsi", "fsi"):
      for s1, s2 in [((3,), (3,)), ((2, 2), (2,)), ((1,), (3,)), ((2,), (3,)), ((2, 1), (1, 3)), ((0,), (1,))]:
        for _ in range(max(1, n // 10)):
          record(name, run(name, f, (array(k1, s1), array(k2, s2)), {}))
    clear()
  for _ in range(n * 10):
    k = rnd.choice("fs")
    a = array(k, (rnd.randint(1, 4),))
    record("clip", run("clip", np.clip, (a, rnd.choice([None, -1.0, 0.5]), rnd.choice([2.0, 0.75])), {}))
    xp = np.sort(array("f", (3,)))
    record("searchsorted", run("searchsorted", np.searchsorted, (xp, array("f", (2,))), dict(side=rnd.choice(["left", "right"]))))
    xp = np.cumsum(np.abs(array("f", (3,))) + .5)
    record("interp", run("interp", np.interp, (array("f", (3,)) * 2, xp, array("f", (3,))), rnd.choice([{}, dict(left=0., right=1.), dict(left=np.nan, right=np.nan)])))
    record("where", run("where", np.where, (array("b", (3,)), array(k, (3,)), array(rnd.choice("fi"), (3,))), {}))
    record("quantile", run("quantile", np.quantile, (array(k, (rnd.randint(1, 4),)), rnd.choice([0., .25, .5, 1.])), {}))
    record("percentile", run("percentile", np.percentile, (array(k, (rnd.randint(1, 4),)), rnd.choice([0, 5, 50, 95])), {}))
    record("convolve", run("convolve", np.convolve, (array("f", (3,)), array("f", (2,))), dict(mode=rnd.choice(["full", "same", "valid"]))))
    record("correlate", run("correlate", np.correlate, (array("f", (3,)), array("f", (2,))), dict(mode=rnd.choice(["full", "same", "valid"]))))
    record("concatenate", run("concatenate", lambda x, y: np.concatenate((x, y)), (array("f", (2,)), array(rnd.choice("fib"), (2,))), {}))
    record("pad", run("pad", np.pad, (array("f", (2,)), (rnd.randint(0, 2), rnd.randint(0, 2))), dict(mode=rnd.choice(["constant"]))))
    record("roll", run("roll", np.roll, (array("f", (3,)), rnd.randint(-4, 4)), {}))
    record("linspace", run("linspace", np.linspace, (val("f"), val("f"), rnd.randint(0, 4)), dict(endpoint=rnd.random() < .5)))
    record("arange", run("arange", np.arange, (rnd.randint(-2, 2), rnd.randint(-2, 6), rnd.choice([1, 2, .5])), {}))
    record("delete", run("delete", np.delete, (array("f", (3,)), rnd.randint(0, 2)), {}))
    record("index", run("index", lambda x, m: x[m], (array(k, (3,)), array("b", (3,))), {}))

    def setitem(x, m, v):
      x = x.copy()
      x[m] = v
      return x
    record("setitem", run("setitem", setitem, (array(rnd.choice("fi"), (3,)), array("b", (3,)), val(rnd.choice("fi"))), {}))

    def iop(x, v):
      x = x.copy()
      x *= v
      x += v
      x -= 1
      return x
    record("inplace", run("inplace", iop, (array(rnd.choice("fi"), (3,)), val(rnd.choice("fi"))), {}))
    record("astype", run("astype", lambda x, d: x.astype(d), (array(rnd.choice("fib"), (3,)), rnd.choice([int, float, bool])), {}))
    record("polyval", run("polyval", np.polyval, (array("f", (3,)), array("f", (2,))), {}))
    record("gradient", run("gradient", np.gradient, (array("f", (4,)),), {}))
    record("trapz", run("trapz", np.trapz, (array("f", (4,)),), {}))
    record("lexsort-min", run("method min", lambda x: x.min(), (array(k, (3,)),), {}))
    record("method-argmax", run("method argmax", lambda x: x.argmax(), (array(k, (3,)),), {}))
    record("method-cumsum", run("method cumsum", lambda x: x.cumsum(), (array(k, (3,)),), {}))
    record("method-round", run("method round", lambda x: x.round(1), (array("f", (3,)),), {}))
  clear()
  print({k: v for k, v in res.items()})
  for k, v in bad.items():
    print(k, len(v))
    for i in v[:3]:
      print("  ", i)
  sys.stdout.flush()
  os._exit(1 if bad else 0)


main()
