"""C37 normalisation, detrending and spectral flux"""
BOUNDS = "signals of 1..3 samples (4 thorough) of any real value, written to a new array, to another array or in place; trends over uniform steps or any given times, with the default or a given model; time-frequency matrices of up to 3x3 real or 2x2 complex values"
OUTSIDE = "floating-point rounding (also of the variance of a constant); longer signals; integer arrays; scipy.signal.stft (the transform given is a stand-in)"
ASSUMPTIONS = ["LinearRegression gives the least-squares line (exact normal equations)"]
COVERS = {"peak", "range", "rms", "rms constant", "default mode", "new array", "other array", "in place", "detrended", "given times", "given model", "not 1d", "flux", "complex", "transform", "rise", "fall"}


def norm(ctx, n, mode, out):
  ud = ctx.mod("sample.utils.dsp")
  v = ctx.reals("v", n, -1000, 1000)
  x = ctx.arr(v, float)
  kw = {} if mode is None else {"mode": mode}
  buf = None
  if out == "other":
    buf = kw["out"] = ctx.arr([7.] * n, float)
  elif out == "self":
    buf = kw["out"] = x
  m = mode or "peak"
  hi = lo = v[0]
  top = abs(v[0])
  for a in v[1:]:
    hi, lo = ctx.ite(a > hi, a, hi), ctx.ite(a < lo, a, lo)
    top = ctx.ite(abs(a) > top, abs(a), top)
  const = False
  if m == "peak":
    ctx.assume(top > 1e-3)
  elif m == "range":
    ctx.assume(hi - lo > 1e-3)
  else:
    const = bool(hi - lo == 0)
    if not const:
      ctx.assume(hi - lo > 1e-3)
  r, exc = ctx.raises(lambda: ud.normalize(x, **kw), TypeError, ValueError, ZeroDivisionError)
  ctx.check(exc is None, "no exception")
  if exc is not None:
    return
  ctx.check(buf is None or r is buf, "written where asked")
  ctx.cover({"new": "new array", "other": "other array", "self": "in place"}[out])
  ctx.cover("default mode" if mode is None else m)
  ctx.check(len(r) == n, "one value per sample")
  if out != "self":
    for i in range(n):
      ctx.eq(x[i], v[i], "the signal is not changed", tol=0)
  y = [r[i] for i in range(n)]
  if m == "peak":
    for i in range(n):
      ctx.eq(y[i] * top, v[i], "scaled by the peak")
    ctx.check(ctx.Or(*[ctx.And(abs(a) > 1 - 1e-9, abs(a) < 1 + 1e-9) for a in y]), "the peak is one")
  elif m == "range":
    for i in range(n):
      ctx.eq(y[i] * (hi - lo), v[i] - lo, "from zero to one")
  else:
    s = sum(y[1:], y[0])
    ctx.eq(s, 0, "zero mean")
    if const:
      for a in y:
        ctx.eq(a, 0, "zeros for a constant")
      ctx.cover("rms constant")
      return
    ctx.eq(sum(a * a for a in y[1:]) + y[0] * y[0], n, "unit variance")
  for i in range(n):
    for j in range(i):
      ctx.implies(v[i] < v[j], ctx.Or(y[i] < y[j], not ctx.symbolic and abs(v[i] - v[j]) < 1e-9), "order of the samples is kept")
      ctx.implies(v[i] > v[j], ctx.Or(y[i] > y[j], not ctx.symbolic and abs(v[i] - v[j]) < 1e-9), "order of the samples is kept")
      ctx.implies(v[i] == v[j], y[i] == y[j], "equal samples stay equal")


def trend(ctx, n, times, model):
  ud = ctx.mod("sample.utils.dsp")
  base = ctx.mod("sklearn.base")
  v = ctx.reals("v", n, -100, 100)
  y = ctx.arr(v, float)
  kw = {}
  ts = list(range(n))
  if times:
    ts = ctx.reals("t", n, -10, 10)
    for a, b in zip(ts, ts[1:]):
      ctx.assume(b - a > 0.01)
    kw["x"] = ctx.arr(ts, float)
    ctx.cover("given times")
  seen = []
  if model:
    k, q = ctx.real("k"), ctx.real("q")

    class M(base.BaseEstimator):

      def fit(self, x, y):
        seen.append((x, y))
        return self

      def predict(self, x):
        return k * x + q
    kw["model"] = M()
    ctx.cover("given model")
  r, exc = ctx.raises(lambda: ud.detrend(y, **kw), TypeError, ValueError)
  ctx.check(exc is None, "no exception")
  if exc is not None:
    return
  ctx.check(ctx.np.shape(r) == (n,), "one residual per sample")
  if ctx.np.shape(r) != (n,):
    return
  for i in range(n):
    ctx.eq(y[i], v[i], "the signal is not changed", tol=0)
  ctx.cover("detrended")
  if model:
    ctx.check(len(seen) == 1 and tuple(ctx.np.shape(seen[0][0])) == (n, 1), "the model is fit once on a column of times")
    if len(seen) != 1 or tuple(ctx.np.shape(seen[0][0])) != (n, 1):
      return
    for i in range(n):
      ctx.eq(seen[0][0][i, 0], ts[i], "the model is fit on the times")
      ctx.eq(ctx.np.reshape(seen[0][1], (-1,))[i], v[i], "the model is fit on the signal")
      ctx.eq(r[i], v[i] - (k * ts[i] + q), "what the model explains is removed")
    return
  ctx.eq(sum((r[i] for i in range(1, n)), r[0]), 0, "the residual sums to zero")
  ctx.eq(sum((r[i] * ts[i] for i in range(1, n)), r[0] * ts[0]), 0, "the residual is orthogonal to time")
  d = [v[i] - r[i] for i in range(n)]
  for i in range(2, n):
    ctx.eq((d[i] - d[0]) * (ts[1] - ts[0]), (d[1] - d[0]) * (ts[i] - ts[0]), "what is removed is a line")


def shape(ctx):
  ud = ctx.mod("sample.utils.dsp")
  v = ctx.reals("v", 4)
  _, exc = ctx.raises(lambda: ud.detrend(ctx.arr(v, float).reshape((2, 2))), ValueError)
  ctx.check(isinstance(exc, ValueError), "matrices are rejected")
  _, exc = ctx.raises(lambda: ud.detrend(v[0]), ValueError)
  ctx.check(isinstance(exc, ValueError), "scalars are rejected")
  ctx.cover("not 1d")


def flux(ctx, rows, cols, cplx, tf):
  ud = ctx.mod("sample.utils.dsp")
  n = rows * cols
  if cplx:
    re, im = ctx.reals("re", n, -10, 10), ctx.reals("im", n, -10, 10)
    v = [a + 1j * b for a, b in zip(re, im)]
    mag = [ctx.fn("sqrt")(a * a + b * b) for a, b in zip(re, im)]
    ctx.cover("complex")
  else:
    v = ctx.reals("v", n, -10, 10)
    mag = [abs(a) for a in v]
  m = ctx.arr(v, complex if cplx else float).reshape((rows, cols))
  if tf:
    x = ctx.arr([1., 2.], float)
    calls = []

    def fn(x_, **kw):
      calls.append((x_, kw))
      return "f", "t", m
    r = ud.spectral_flux(x, tf_fn=fn, nperseg=3)
    ctx.check(len(calls) == 1 and calls[0][0] is x and calls[0][1] == {"nperseg": 3}, "the transform gets the signal and the arguments")
    ctx.cover("transform")
  else:
    r = ud.spectral_flux_from_tf(m)
  ctx.check(ctx.np.shape(r) == (cols - 1,), "one value per pair of frames")
  if ctx.np.shape(r) != (cols - 1,):
    return
  for j in range(1, cols):
    s = 0
    for i in range(rows):
      d = mag[i * cols + j] - mag[i * cols + j - 1]
      s = s + ctx.ite(d > 0, d, 0)
      ctx.cover("rise" if bool(d > 0) else "fall")
    ctx.eq(r[j - 1], s, "sum of the increments")
  for i in range(n):
    ctx.eq(m[i // cols, i % cols], v[i], "the matrix is not changed", tol=0)
  ctx.cover("flux")


def configs(tier):
  q = tier == "quick"
  for mode in (None, "peak", "range", "rms"):
    for n in range(1, 4 if q else 5):
      if mode == "range" and n == 1:
        continue
      for out in ("new", "other", "self"):
        yield f"norm {mode} {n} {out}", norm, dict(n=n, mode=mode, out=out)
  for n in (2, 3) if q else (2, 3, 4, 5):
    for times in (False, True):
      for model in (False, True):
        yield f"trend {n} {times} {model}", trend, dict(n=n, times=times, model=model)
  yield "trend 5", trend, dict(n=5, times=False, model=False)
  yield "shape", shape, {}
  for r, c, cp in ((1, 2, False), (2, 2, False), (2, 3, False), (3, 2, False), (1, 2, True), (2, 2, True), (1, 3, True)) + (() if q else ((3, 3, False), (2, 3, True))):
    yield f"flux {r} {c} {cp}", flux, dict(rows=r, cols=c, cplx=cp, tf=False)
  yield "flux transform", flux, dict(rows=2, cols=2, cplx=False, tf=True)
