"""C16 beat regression: bounds and starting point"""
import math
import re
BOUNDS = "tracks of 2..3 samples, every amplitude (dB), frequency and initial parameter octuple; every starting point against every bounds (4 of the 8 parameters arbitrary at a time)"
OUTSIDE = "the optimisation itself (scipy.optimize.least_squares is a stand-in that records its call and returns arbitrary parameters)"
ASSUMPTIONS = ["decibel to amplitude conversion is some positive increasing function inverse to the logarithm"]
COVERS = {"varying amplitude", "constant amplitude", "too short", "started", "refused"}
NAMES = ("a0", "a1", "f0", "f1", "d0", "d1", "p0", "p1")


def patch_ls(ctx, fun):
  """replace the optimiser however it is reached"""
  reg = ctx.mod("sample.beatsdrop.regression")
  import scipy.optimize
  ctx.patch(scipy.optimize, "least_squares", fun)
  for k in ("least_squares",):
    if hasattr(reg, k):
      ctx.patch(reg, k, fun)
  if hasattr(getattr(reg, "optimize", None), "least_squares"):
    ctx.patch(reg.optimize, "least_squares", fun)


class Result:
  pass


def bounds(ctx, n, cls="BeatRegression"):
  reg = ctx.mod("sample.beatsdrop.regression")
  m = getattr(reg, cls)()
  a, f = ctx.reals("a", n, -100, 20), ctx.reals("f", n, 1, 20000)
  p = (ctx.reals("pa", 2, 0, 10) + ctx.reals("pf", 2, 1, 20000) + ctx.reals("pd", 2, -5, 200) + ctx.reals("pp", 2, -7, 7))
  t = ctx.arr([i / 16. for i in range(n)], float)
  aa, ff = ctx.arr(a, float), ctx.arr(f, float)
  lo, hi = m.bounds(t, aa, ff, tuple(p), m)
  ctx.check(len(lo) == len(hi) == 8, "eight parameters")
  lin = [ctx.fn("db2a")(x) for x in a]
  const = True
  for x in a[1:]:
    const = ctx.And(const, x == a[0])
  ctx.cover("constant amplitude" if bool(const) else "varying amplitude")
  for i in range(2):
    ctx.check(lo[i] >= 0, "amplitude bound is not negative")
    ctx.check(lo[i] <= hi[i], "amplitude bounds are ordered")
    for x in lin:
      ctx.le(lo[i], x, "observed amplitudes are not below the bound")
      ctx.le(x, hi[i], "observed amplitudes are not above the bound")
    for x in p[:2]:
      ctx.implies(ctx.Not(const), ctx.And(lo[i] <= x + 1e-9, x <= hi[i] + 1e-9), "initial amplitudes are within the bounds")
    for x in list(f) + p[2:4]:
      ctx.le(lo[2 + i], x, "frequencies are not below the bound")
      ctx.le(x, hi[2 + i], "frequencies are not above the bound")
    ctx.check(lo[4 + i] > 0, "decays are positive")
    ctx.check(lo[4 + i] < hi[4 + i], "decay bounds are ordered")
  # the first phase starts from its zero, the second from its initial value
  for i, c in ((6, 0.), (7, p[7])):
    ctx.eq(hi[i] - lo[i], 2 * math.pi, "one turn of phase")
    ctx.eq((hi[i] + lo[i]) / 2, c, "phase bounds are centred")
  ctx.eq(aa, ctx.arr(a, float), "data is not modified", tol=0)
  ctx.eq(ff, ctx.arr(f, float), "data is not modified", tol=0)


def short(ctx, cls="BeatRegression"):
  reg = ctx.mod("sample.beatsdrop.regression")
  m = getattr(reg, cls)()
  a, f = ctx.real("a", -100, 20), ctx.real("f", 1, 20000)
  p = [1.] * 8
  _, e = ctx.raises(lambda: m.bounds(ctx.arr([0.], float), ctx.arr([a], float), ctx.arr([f], float), p, m), ValueError)
  ctx.check(e is not None, "a track of one sample is refused")
  ctx.cover("too short")


def start(ctx, which, cls="BeatRegression", default=False):
  """the optimiser is started only strictly inside the bounds"""
  reg = ctx.mod("sample.beatsdrop.regression")
  n = 2
  calls = []
  sol = ctx.reals("sol", 8, .1, 10)

  def ls(fun, x0, **kw):
    calls.append((fun, x0, kw))
    r = Result()
    r.x = ctx.arr(sol, float)
    return r

  patch_ls(ctx, ls)
  x0, lo, hi = [.5] * 8, [.25] * 8, [.75] * 8
  for i in which:
    x0[i] = ctx.real("x" + NAMES[i], -10, 10)
    lo[i] = ctx.real("l" + NAMES[i], -10, 10)
    hi[i] = ctx.real("h" + NAMES[i], -10, 10)
  seen = []

  def init(t, a, f, res_fn, model):
    seen.append(("init", model))
    return tuple(x0)

  def bnd(t, a, f, p, model):
    seen.append(("bounds", model, p))
    return tuple(lo), tuple(hi)

  kw = {"disambiguate": False} if cls == "DualBeatRegression" else {}
  m = getattr(reg, cls)(params_init=init, bounds=bnd, **kw)
  t = ctx.arr([0., .5], float)
  a, f = ctx.arr(ctx.reals("a", n, -60, 0), float), ctx.arr(ctx.reals("f", n, 1, 1000), float)
  inside = [ctx.And(lo[i] < x0[i], x0[i] < hi[i]) for i in range(8)]
  r, e = ctx.raises(lambda: m.fit(t, a, f), ValueError)
  if e is not None:
    ctx.cover("refused")
    ctx.check(not calls, "the optimiser is not started")
    ctx.check(ctx.Not(ctx.And(*inside)), "refused only when some parameter is not inside its bounds")
    named = set(re.findall(r"\b[afdp][01]\b", str(e)))
    for i, k in enumerate(NAMES):
      if k in named:
        ctx.check(ctx.Not(inside[i]), f"named parameters are unfeasible ({k})")
      else:
        ctx.check(inside[i], f"unfeasible parameters are named ({k})")
    return
  ctx.cover("started")
  ctx.check(r is m, "fit returns the model")
  ctx.check(len(calls) == 1, "the optimiser is started once")
  ctx.check(ctx.And(*inside), "the optimiser is started only strictly inside the bounds")
  ctx.eq(ctx.arr(list(calls[0][1]), float), ctx.arr(x0, float), "starting point")
  b = calls[0][2].get("bounds")
  ctx.check(b is not None, "the bounds are given to the optimiser")
  ctx.eq(ctx.arr(list(b[0]), float), ctx.arr(lo, float), "lower bounds")
  ctx.eq(ctx.arr(list(b[1]), float), ctx.arr(hi, float), "upper bounds")
  ctx.eq(ctx.arr(list(m.params_), float), ctx.arr(sol, float), "solution")
  # the optimum is the one of the model returned
  tt = ctx.arr([0.], float)
  am, = m.predict(ctx.arr([0., .25], float), "a0")
  ctx.eq(am[0], sol[0], "the fitted beat has the parameters of the solution")
  del tt


def configs(tier):
  q = [(f"bounds{n}{c[:4]}", bounds, dict(n=n, cls=c)) for n in ((2, 3) if tier != "thorough" else (2, 3, 4))
       for c in ("BeatRegression", "DualBeatRegression")]
  q += [(f"short{c[:4]}", short, dict(cls=c)) for c in ("BeatRegression", "DualBeatRegression")]
  for c in ("BeatRegression", "DualBeatRegression"):
    q += [(f"start{c[:4]}{i}", start, dict(which=w, cls=c)) for i, w in enumerate(((0, 2, 4), (1, 3, 5), (5, 6, 7)))]
  if tier == "thorough":
    q += [("startall", start, dict(which=tuple(range(8))))]
  return q
