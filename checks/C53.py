"""C53 the beat regression compares the track with the model and starts from the track"""
import math

from checks.C16 import Result, patch_ls

BOUNDS = ("tracks of 1..4 samples, every amplitude (dB), frequency, modelled amplitude and frequency; every parameter octuple; "
          "every slope, intercept and trend; every autocorrelogram of 3..5 lags (6 thorough), 6 fixed ones of up to 7 (also for the initial phase); custom and default losses, weights and clipping")
OUTSIDE = "the optimiser, the linear regressor, the autocorrelogram and the beat model, which are stand-ins returning arbitrary values (they are checked by other properties, or belong to libraries); longer tracks"
ASSUMPTIONS = ["the slope of the trend is not zero", "decibel to amplitude conversion is some positive increasing function inverse to the logarithm"]
COVERS = {"amplitude residuals", "both residuals", "clipped", "not clipped", "off grid", "peak", "no peak", "phase", "default regressor", "column", "predicted", "options"}


def beat_stub(ctx, bd, am=None, fm=None):
  """beat model with arbitrary modulations, which are functions of time"""
  made = []
  real = bd.ModalBeat

  class Beat(real):
    _graph = {}

    def __init__(self, a0=1, a1=1, f0=.95, f1=1.05, d0=1, d1=1, p0=0, p1=0):
      self.given = (a0, a1, f0, f1, d0, d1, p0, p1)
      self.asked = []
      made.append(self)

    def am(self, t):
      return self.compute(t, "am")

    def fm(self, t):
      return self.compute(t, "fm")

    def x(self, t):
      return self.compute(t, "x")

    def compute(self, t, output):
      if isinstance(output, str):
        return self.compute(t, (output,))[0]
      self.asked.append((t, tuple(output)))
      fs = {"am": am, "fm": fm, "x": am}
      return [ctx.arr([fs[k](u) for u in list(ctx.np.ravel(t))], float) for k in output]

  ctx.patch(bd, "ModalBeat", Beat)
  return made


def table(ctx, name, lo, hi):
  """arbitrary function of concrete instants"""
  d = {}

  def f(u):
    k = round(float(u), 9)
    if k not in d:
      d[k] = ctx.real(f"{name}{k}", lo, hi)
    return d[k]

  return f


def fitted(ctx, cls, t, a, f, **kw):
  """fit with a stand-in optimiser: the fitted model and the optimiser's call"""
  reg = ctx.mod("sample.beatsdrop.regression")
  calls = []
  opts = kw.pop("fit", {})

  def ls(fun, x0, **k):
    calls.append((fun, x0, k))
    r = Result()
    r.x = ctx.arr([.5] * 8, float)
    r.fun = fun
    return r

  patch_ls(ctx, ls)
  if cls == "DualBeatRegression":
    kw.setdefault("disambiguate", False)
  inf = float("inf")
  kw.setdefault("params_init", lambda *_: (.5,) * 8)
  if kw["params_init"] == "default":
    del kw["params_init"]
  m = getattr(reg, cls)(bounds=lambda *_: ((-inf,) * 8, (inf,) * 8), **kw)
  r = m.fit(t, a, f, **opts)
  ctx.check(r is m and len(calls) == 1, "fitted once")
  return m, calls[0]


def params(ctx):
  return ctx.reals("pa", 2, 0, 10) + ctx.reals("pf", 2, 1, 20000) + ctx.reals("pd", 2, .01, 200) + ctx.reals("pp", 2, -7, 7)


def sqr(x):
  return x * x


def amplitudes(ctx, at, fs, column=False):
  """residuals of the amplitude model"""
  bd = ctx.mod("sample.beatsdrop")
  n = len(at)
  env = table(ctx, "am", 0, 2)
  made = beat_stub(ctx, bd, env, lambda u: 1.)
  a, f = ctx.reals("a", n, -100, 6), ctx.reals("f", n, 1, 20000)
  t = ctx.arr([v / fs for v in at], float)
  aa, ff = ctx.arr(a, float), ctx.arr(f, float)
  m, (fun, _, _) = fitted(ctx, "BeatRegression", t.reshape((-1, 1)) if column else t, aa, ff, fs=fs)
  p = params(ctx)
  res = fun(tuple(p))
  ctx.check(tuple(res.shape) == (n,), "one residual for each sample")
  ctx.eq(ctx.arr(list(made[-1].given), float), ctx.arr(p, float), "the model has the parameters that are tried")
  for i, v in enumerate(at):
    d = ctx.fn("db2a")(a[i])
    j = int(math.floor(v))
    if i == len(at) - 1:
      prev = env(max(0, math.ceil(v) - 1) / fs)
      ok = [sqr(res[i]) == sqr(d - prev)]
      if v == j:
        ok.append(sqr(res[i]) == sqr(d - env(v / fs)))
        ctx.check(ctx.Or(*[ctx.And(sqr(res[i]) - sqr(d - e) < 1e-6, sqr(d - e) - sqr(res[i]) < 1e-6) for e in (prev, env(v / fs))]),
                  "residual at the last instant")
        continue
      ctx.check(ctx.Or(*[ctx.And(sqr(res[i]) - sqr(d - e) < 1e-6, sqr(d - e) - sqr(res[i]) < 1e-6) for e in (prev,)]), "residual at the last instant")
      continue
    if v == j:
      e = env(v / fs)
    else:
      ctx.cover("off grid")
      e = env(j / fs) * (j + 1 - v) + env((j + 1) / fs) * (v - j)
    ctx.eq(sqr(res[i]), sqr(d - e), "difference between the observed and the modelled amplitude", tol=1e-6)
  ctx.cover("amplitude residuals")
  if column:
    ctx.cover("column")
  ctx.eq(aa, ctx.arr(a, float), "data is not modified", tol=0)
  ctx.eq(ff, ctx.arr(f, float), "data is not modified", tol=0)


def both(ctx, n, loss, clip, w=None, column=False):
  """residuals of the amplitude and frequency model"""
  bd = ctx.mod("sample.beatsdrop")
  am, fm = table(ctx, "am", 0, 2), table(ctx, "fm", -60000, 60000)
  made = beat_stub(ctx, bd, am, fm)
  a, f = ctx.reals("a", n, -100, 6), ctx.reals("f", n, -20000, 20000)
  at = [i / 8. for i in range(n)]
  t = ctx.arr(at, float)
  aa, ff = ctx.arr(a, float), ctx.arr(f, float)
  kw = {}
  if loss == "custom":
    kw.update(freq_loss=lambda x, y: 2 * x - y, amp_loss=lambda x, y: 3 * x - y)
    fl, al = (lambda x, y: 2 * x - y), (lambda x, y: 3 * x - y)
  elif loss == "default":
    mel = ctx.mod("sample.psycho").hz2mel
    al = lambda x, y: x - y

    def fl(x, y):
      return mel(ctx.arr([x], float))[0] - mel(ctx.arr([y], float))[0]

  if w is not None:
    kw["freq_w"] = w
  if clip != "default":
    kw["freq_clip"] = clip
  wv, cv = 1 / 3800 if w is None else w, 2.5 if clip == "default" else clip
  m, (fun, _, _) = fitted(ctx, "DualBeatRegression", t.reshape((-1, 1)) if column else t, aa, ff, **kw)
  p = params(ctx)
  res = fun(tuple(p))
  ctx.check(tuple(res.shape) == (2 * n,), "two residuals for each sample")
  ctx.eq(ctx.arr(list(made[-1].given), float), ctx.arr(p, float), "the model has the parameters that are tried")
  est = [fm(u) / (2 * math.pi) for u in at]
  est = [ctx.ite(e < 0, -e, e) for e in est]
  # the frequencies that are compared
  cmp = list(est)
  if cv is not None:
    s = []
    for e in est:  # insertion sort
      k = 0
      while k < len(s) and bool(s[k] < e):
        k += 1
      s.insert(k, e)

    def q(x):
      pos = x * (n - 1)
      i = int(math.floor(pos))
      return s[i] if i + 1 >= n else s[i] * (i + 1 - pos) + s[i + 1] * (pos - i)

    d = cv * (q(.75) - q(.25)) / 2
    lo, hi = q(.5) - d, q(.5) + d
    cmp = []
    for e in est:
      if bool(e < lo):
        cmp.append(lo)
        ctx.cover("clipped")
      elif bool(e > hi):
        cmp.append(hi)
        ctx.cover("clipped")
      else:
        cmp.append(e)
        ctx.cover("not clipped")
  for i in range(n):
    ctx.eq(sqr(res[i]), sqr(al(ctx.fn("db2a")(a[i]), am(at[i]))), "loss of the observed and modelled amplitude", tol=1e-6)
    x = ctx.ite(f[i] < 0, -f[i], f[i])
    ctx.eq(res[n + i], wv * fl(x, cmp[i]), "weighted loss of the observed and modelled frequency", tol=1e-6)
  again = fun(tuple(p))
  ctx.eq(again, res, "the residuals depend on the parameters only", tol=1e-9)
  ctx.cover("both residuals")
  if column:
    ctx.cover("column")
  ctx.eq(aa, ctx.arr(a, float), "data is not modified", tol=0)
  ctx.eq(ff, ctx.arr(f, float), "data is not modified", tol=0)


PEAKY = {"one": (1., .2, .5, .1), "late": (1., .5, .2, .25, .45, .1), "none": (1., .5, .25),
         "two": (1., .1, .5, .1, .8, .2), "damped": (1., .1, .9, .1, .8, .2), "low": (1., -.5, -.2, -.3, -.1, .9, .4)}


def guess(ctx, corr, n, cls="BeatRegression", attrs=None, fs=8., lpf=None, column=False):
  """starting point of the optimiser"""
  bd, d = ctx.mod("sample.beatsdrop"), ctx.mod("sample.utils.dsp")
  beat_stub(ctx, bd, lambda u: 0., lambda u: 0.)
  import sklearn.linear_model
  k, q = ctx.real("slope", -200, 200), ctx.real("intercept", -60, 20)
  ctx.assume(ctx.Or(k > .01, k < -.01))
  trend = ctx.reals("trend", n, -60, 20)
  a, f = ctx.reals("a", n, -60, 6), ctx.reals("f", n, 1, 20000)
  at = [i / 8. for i in range(n)]
  fits, corrs = [], []

  class Trend:

    def fit(self, x, y, *_, **__):
      fits.append((x, y))
      s, i = attrs or ("coef_", "intercept_")
      setattr(self, s, ctx.arr([[k]], float) if not attrs else k)
      setattr(self, i, ctx.arr([q], float) if not attrs else q)
      return self

    def predict(self, x):
      return ctx.arr([[v] for v in trend], float)

  kw = {}
  if attrs:
    kw = dict(linear_regressor=Trend(), linear_regressor_k=attrs[0], linear_regressor_q=attrs[1])
  else:
    ctx.patch(sklearn.linear_model, "LinearRegression", Trend)
    ctx.cover("default regressor")
  if lpf is not None:
    kw["lpf"] = lpf
  vals = list(PEAKY[corr]) if isinstance(corr, str) else ctx.reals("corr", corr, -1, 1)

  def acf(t, x, **kk):
    corrs.append((t, x, kk))
    return ctx.arr(list(vals), float)

  ctx.patch(d, "lombscargle_autocorrelogram", acf)
  t = ctx.arr(at, float)
  aa, ff = ctx.arr(a, float), ctx.arr(f, float)
  m, (_, x0, _) = fitted(ctx, cls, t.reshape((-1, 1)) if column else t, aa, ff, params_init="default", fs=fs, **kw)
  x0 = [v if not hasattr(v, "shape") or v.shape == () else v.reshape(-1)[0] for v in x0]
  ctx.check(len(x0) == 8, "eight parameters")
  # trend
  ctx.check(len(fits) >= 1, "the trend of the track is estimated")
  ctx.eq(ctx.np.ravel(fits[-1][0]), t, "trend over time")
  ctx.eq(ctx.np.ravel(fits[-1][1]), aa, "trend of the amplitude in decibel")
  ctx.check(len(corrs) == 1, "the autocorrelogram is computed")
  ctx.eq(ctx.np.ravel(corrs[0][0]), t, "autocorrelogram over time")
  ctx.eq(ctx.np.ravel(corrs[0][1]), ctx.arr([ctx.fn("db2a")(v - w) for v, w in zip(a, trend)], float),
         "autocorrelogram of the amplitude without trend", tol=1e-6)
  ctx.check(corrs[0][2].get("fs") == fs, "sampling frequency of the autocorrelogram")
  ctx.check(corrs[0][2].get("lpf") == (50 if lpf is None else lpf), "corner frequency of the autocorrelogram")
  # amplitudes and decays
  for i in range(2):
    ctx.eq(x0[i], ctx.fn("db2a")(q) / 2, "half of the amplitude of the trend", tol=1e-6)
    ctx.eq(x0[4 + i] * k, -40 * math.log10(math.e), "decay of the trend", tol=1e-6)
  # frequencies
  mean = f[0]
  for v in f[1:]:
    mean = mean + v
  ctx.eq((x0[2] + x0[3]) / 2, mean / n, "the frequencies are centred on the one of the track", tol=1e-6)
  peak = None
  for i in range(1, len(vals) - 1):
    l, c, r = vals[i - 1:i + 2]
    if bool(ctx.And(c > l, c > r)) if not isinstance(corr, str) else (c > l and c > r):
      peak = (i, l, c, r)
      break
  if peak is None:
    ctx.cover("no peak")
    ctx.eq(x0[2], x0[3], "no beat frequency without peaks", tol=1e-9)
    am = 0.
  else:
    ctx.cover("peak")
    i, l, c, r = peak
    # lag = i + (l - r) / (2 * (l - 2c + r))
    den = 2 * (l - 2 * c + r)
    ctx.eq((x0[2] - x0[3]) * (i * den + l - r), fs * den, "beat frequency of the first peak of the autocorrelogram", tol=1e-6)
    am = fs / (2 * (i + (l - r) / den)) if isinstance(corr, str) else None
  # phases
  ctx.eq(x0[6], 0, "the first phase is zero", tol=1e-9)
  ctx.check(ctx.And(x0[7] <= 1e-9, x0[7] > -2 * math.pi - 1e-9), "the second phase is within one turn")
  if am is not None:
    ctx.cover("phase")
    lin = [ctx.fn("db2a")(v) for v in a]
    re = im = 0.
    for v, u in zip(lin, at):
      re, im = re + v * math.cos(4 * math.pi * am * u), im - v * math.sin(4 * math.pi * am * u)
    c, s = ctx.fn("cos")(x0[7]), ctx.fn("sin")(x0[7])
    ctx.eq(re * s + im * c, 0, "the second phase is the one of the modulation", tol=1e-5)
    ctx.check(re * c - im * s >= -1e-5, "the second phase is the one of the modulation, not its opposite")
  if column:
    ctx.cover("column")
  ctx.eq(aa, ctx.arr(a, float), "data is not modified", tol=0)
  ctx.eq(ff, ctx.arr(f, float), "data is not modified", tol=0)


def predict(ctx, names, column):
  bd = ctx.mod("sample.beatsdrop")
  am, fm = table(ctx, "am", -2, 2), table(ctx, "fm", -60000, 60000)
  beat_stub(ctx, bd, am, fm)
  t = ctx.arr([0., .25, .5], float)
  a, f = ctx.arr(ctx.reals("a", 3, -60, 6), float), ctx.arr(ctx.reals("f", 3, 1, 100), float)
  m, _ = fitted(ctx, "BeatRegression", t, a, f)
  at = [0., .125]
  tt = ctx.arr(at, float)
  r = m.predict(tt.reshape((-1, 1)) if column else tt, *names)
  want = names or ("x",)
  ctx.check(len(r) == len(want), "one array for each output")
  for v, k in zip(r, want):
    g = fm if k == "fm" else am
    ctx.eq(v, ctx.arr([g(u) for u in at], float), f"predicted {k}", tol=1e-9)
  ctx.cover("predicted")


def options(ctx, cls):
  """the optimiser gets the requested options"""
  bd = ctx.mod("sample.beatsdrop")
  beat_stub(ctx, bd, lambda u: 0., lambda u: 0.)
  t = ctx.arr([0., .25, .5], float)
  a, f = ctx.arr(ctx.reals("a", 3, -60, 6), float), ctx.arr(ctx.reals("f", 3, 1, 100), float)
  given = {}
  for k, v in (("method", "trf"), ("loss", "huber"), ("tr_solver", "exact"), ("max_nfev", ctx.int("nfev", 1, 99)), ("f_scale", ctx.real("scale", .1, 9))):
    if ctx.choice(k, [True, False]):
      given[k] = v
  _, (_, _, kw) = fitted(ctx, cls, t, a, f, fit=given)
  want = {"method": "dogbox", "loss": "cauchy", "tr_solver": "lsmr", **given}
  ctx.check({k for k in kw if k not in ("bounds", "x0", "fun")} == set(want), "options of the optimiser")
  for k, v in want.items():
    if k in kw:
      ctx.same(kw[k], v, f"option of the optimiser: {k}")
  ctx.cover("options")


def configs(tier):
  th = tier == "thorough"
  q = [(f"amp{i}", amplitudes, dict(at=at, fs=fs)) for i, (at, fs) in enumerate(
      (((0, 1, 2), 100), ((0, 2, 3, 4), 50), ((1, 2.5, 4), 100), ((0, .25, 1.5, 3.5), 10)))]
  q += [("amp-column", amplitudes, dict(at=(0, 1, 2), fs=100, column=True))]
  for n in (1, 2, 3) if not th else (1, 2, 3, 4):
    q += [(f"both{n}-{c}", both, dict(n=n, loss="custom", clip=c, w=.25)) for c in (None, .5, "default")]
  q += [("both2-w", both, dict(n=2, loss="custom", clip=None)), ("both2-default", both, dict(n=2, loss="default", clip=None, w=.5)),
        ("both-column", both, dict(n=2, loss="custom", clip=.5, w=.25, column=True))]
  for n in (1, 2, 3):
    q += [(f"guess-{c}{n}", guess, dict(corr=c, n=n, cls=cls)) for c, cls in (("one", "BeatRegression"), ("late", "DualBeatRegression"), ("none", "BeatRegression"))]
  q += [(f"guess-{c}2", guess, dict(corr=c, n=2, cls=cls)) for c, cls in (("two", "BeatRegression"), ("damped", "DualBeatRegression"), ("low", "BeatRegression"))]
  q += [(f"guess-any{c}", guess, dict(corr=c, n=2, fs=100.)) for c in ((3, 4, 5) if not th else (3, 4, 5, 6))]
  q += [("guess-attrs", guess, dict(corr="one", n=2, attrs=("k_", "q_"), fs=20., lpf=7.)),
        ("guess-attrs-dual", guess, dict(corr="one", n=2, cls="DualBeatRegression", attrs=("k_", "q_"), fs=20., lpf=7.)),
        ("guess-column", guess, dict(corr="one", n=2, column=True))]
  q += [(f"predict{''.join(s)}{int(c)}", predict, dict(names=s, column=c)) for s in ((), ("am",), ("fm", "x")) for c in (False, True)]
  q += [(f"options{c[:4]}", options, dict(cls=c)) for c in ("BeatRegression", "DualBeatRegression")]
  return q
