"""C42 what the hyper-parameter optimiser minimises and returns"""
BOUNDS = "signals of 1..3 samples (4 thorough), 0..2 dimensions, every sample, resynthesised value and dimension value, clipping on or off, evaluation history and initial state given or not; progress over 0..4 calls"
OUTSIDE = "scikit-optimize itself (a stand-in evaluates the loss at arbitrary points and returns the best one); analysis and synthesis (stand-in model)"
COVERS = {"clipped", "not clipped", "inside", "best", "state", "points given", "randomize", "minimize", "reset", "other audio"}


def setup(ctx, n, nd, clip=None, losskw=True):
  opt = ctx.mod("sample.optimize")
  base = ctx.mod("sklearn.base")
  log = dict(models=[], loss=[])
  x = ctx.reals("x", n, -1, 1)

  class Model(base.BaseEstimator):

    def __init__(self, p0=None, p1=None, other=7, sinusoidal__tracker__fs=None, ys=None):
      self.p0, self.p1, self.other, self.sinusoidal__tracker__fs, self.ys = p0, p1, other, sinusoidal__tracker__fs, ys
      self.calls = []

    def set_params(self, **k):
      for a, b in k.items():
        setattr(self, a, b)
      return self

    def fit(self, x, y=None, **k):
      i = len(log["models"])
      log["models"].append(self)
      self.calls.append(("fit", x, k, {a: getattr(self, a) for a in ("p0", "p1", "other", "sinusoidal__tracker__fs")}))
      self.out = ctx.reals(f"y{i}_", len(x), -3, 3)
      return self

    def predict(self, t, **k):
      self.calls.append(("predict", t, k))
      return ctx.arr(self.out, float)

  def loss(a, b, **k):
    i = len(log["loss"])
    v = ctx.real(f"loss{i}", 0, 10)
    log["loss"].append((a, list(b), k, v))
    return v

  m = Model()
  kw = {} if clip is None else {"clip": clip}
  if losskw:
    kw["loss_kw"] = {"tag": 3}
  o = opt.SAMPLEOptimizer(model=m, loss_fn=loss, remap=None, **kw, **{f"p{i}": (0., 1.) for i in range(nd)})
  return opt, o, m, x, log


def evaluated(ctx, log, i, xs, xa, vals, fs, clip, losskw=True):
  """the i-th evaluation of the loss"""
  ctx.check(len(log["loss"]) > i, "the loss function is evaluated")
  if len(log["loss"]) <= i:
    return
  a, b, k, v = log["loss"][i]
  ctx.eq(ctx.arr(list(a), float), ctx.arr(xs, float), "compared with the target", tol=0)
  m = log["models"][i]
  ctx.check(k == ({"tag": 3} if losskw else {}), "arguments of the loss function")
  ctx.check([c[0] for c in m.calls] == ["fit", "predict"], "one analysis and one synthesis")
  if [c[0] for c in m.calls] != ["fit", "predict"]:
    return
  _, fx, fk, par = m.calls[0]
  ctx.eq(ctx.arr(list(fx), float), ctx.arr(xs, float), "the target is analysed", tol=0)
  for j, w in enumerate(vals):
    ctx.check(par[f"p{j}"] is not None, "value of the dimension is set before the analysis")
    if par[f"p{j}"] is not None:
      ctx.eq(par[f"p{j}"], w, "value of the dimension", tol=0)
  ctx.eq(par["sinusoidal__tracker__fs"], fs, "sample rate of the analysis", tol=0)
  ctx.check(par["other"] == 7, "other settings stay")
  t = list(ctx.np.reshape(m.calls[1][1], (-1,)))
  ctx.check(len(t) == len(xs), "as many instants as samples")
  for j, u in enumerate(t[:len(xs)]):
    ctx.eq(u, j / fs, "instant of the sample")
  ctx.check(len(b) == len(xs), "as many samples as the target")
  if len(b) != len(xs):
    return
  peak = 0.
  for s in xs:
    s = ctx.ite(s < 0, -s, s)
    peak = ctx.ite(s > peak, s, peak)
  for j, u in enumerate(b):
    w = m.out[j]
    if clip:
      w = ctx.ite(w > peak, peak, ctx.ite(w < -peak, -peak, w))
    ctx.eq(u, w, "resynthesised sample", tol=0)
  if n_out(ctx, m.out, peak):
    ctx.cover("clipped" if clip else "not clipped")
  else:
    ctx.cover("inside")


def n_out(ctx, out, peak):
  return bool(ctx.Or(*[ctx.Or(v > peak, v < -peak) for v in out])) if out else False


def loss(ctx, n, nd, clip, losskw=True):
  opt, o, m, x, log = setup(ctx, n, nd, clip, losskw)
  fs = ctx.real("fs", 1, 96000)
  xa = ctx.arr(x, float)
  f = o.loss(xa, fs)
  for i in range(2 if n < 3 else 1):
    vals = ctx.reals(f"v{i}_", nd, 0, 1)
    r = f(tuple(vals))
    evaluated(ctx, log, i, x, xa, vals, fs, clip is not False, losskw)
    ctx.check(r is log["loss"][i][3] if len(log["loss"]) > i else False, "value of the loss function")
  ctx.check(len({id(q) for q in log["models"] + [m]}) == len(log["models"]) + 1, "the model given is not fitted, nor reused")
  ctx.check(m.p0 is None and m.p1 is None, "the settings of the model given stay")
  ctx.eq(xa, ctx.arr(x, float), "the target is not altered", tol=0)


def minimize(ctx, n, nd, npts, how, clip=None):
  import skopt
  opt, o, m, x, log = setup(ctx, n, nd, clip)
  given = {}

  class Res:
    pass

  pts = [ctx.reals(f"v{i}_", nd, 0, 1) for i in range(npts)]

  def gp(func, dimensions, **k):
    given["dims"] = list(dimensions)
    given["kw"] = k
    vals = [func(list(p)) for p in pts]
    best = 0
    for i in range(1, npts):
      if bool(vals[i] < vals[best]):
        best = i
    res = Res()
    res.x, res.fun, res.x_iters, res.func_vals = pts[best], vals[best], pts, vals
    given["best"], given["res"] = best, res
    return res

  ctx.patch(skopt, "gp_minimize", gp)
  if hasattr(opt, "gp_minimize"):
    ctx.patch(opt, "gp_minimize", gp)
  kw = {}
  state = Res()
  state.x_iters, state.func_vals = [[.5] * nd], [1.]
  if how in ("state", "points"):
    kw["state"] = state
  if how in ("points", "points only"):
    kw["x0"], kw["y0"] = [[.25] * nd], [2.]
  if how == "starts":  # to be evaluated
    kw["state"] = state
    kw["x0"] = [[.25] * nd]
  fs = 44100
  if ctx.choice("rate", [True, False]):
    fs = kw["fs"] = ctx.real("fs", 1, 96000)
  if ctx.choice("fit arguments", [True, False]):
    kw["fit_kws"] = {"extra": 5}
  xa = ctx.arr(x, float)
  r, res = o.gp_minimize(xa, n_calls=npts, **kw)
  if "res" not in given:
    return
  ctx.check(res is given["res"], "the summary of the optimiser is returned")
  ctx.check(given["dims"] == [(0., 1.)] * nd, "dimensions")
  want = {"n_calls": npts}
  if how == "state":
    want.update(x0=state.x_iters, y0=state.func_vals)
    ctx.cover("state")
  elif how != "none":
    want.update({a: kw[a] for a in ("x0", "y0") if a in kw})
    ctx.cover("points given")
  ctx.check(given["kw"] == want, "arguments of the optimiser")
  for i in range(npts):
    evaluated(ctx, log, i, x, xa, pts[i], fs, clip is not False)
  ctx.check(r is log["models"][-1] and len(log["models"]) == npts + 1 and r is not m, "the model returned is a fitted copy")
  if not r.calls:
    return
  _, fx, fk, par = r.calls[-1]
  ctx.cover("best")
  ctx.eq(ctx.arr(list(fx), float), ctx.arr(x, float), "fitted on the target", tol=0)
  ctx.check(fk == kw.get("fit_kws", {}), "arguments of the last fit")
  for j in range(nd):
    ctx.eq(par[f"p{j}"], pts[given["best"]][j], "the best values are set", tol=0)
  ctx.eq(par["sinusoidal__tracker__fs"], fs, "sample rate", tol=0)
  ctx.check(par["other"] == 7 and m.p0 is None and not m.calls, "the model given stays as it is")


def other(ctx):
  """the loss can be evaluated for other audio and another rate"""
  opt, o, m, x, log = setup(ctx, 2, 1, False)
  f = o.loss(ctx.arr(x, float), 100.)
  z = ctx.reals("z", 3, -1, 1)
  fs = ctx.real("fs", 1, 1000)
  v = ctx.real("v", 0, 1)
  f((v,), x=ctx.arr(z, float), sinusoidal__tracker__fs=fs)
  evaluated(ctx, log, 0, z, None, [v], fs, False)
  ctx.cover("other audio")


def progress(ctx, n, minimum):
  opt, o, m, x, log = setup(ctx, 1, 2)
  bars = []

  class Bar:

    def __init__(self, *a, total=None, **k):
      self.total, self.n, self.text, self.closed = total, 0, None, False
      bars.append(self)

    def update(self, k=1):
      self.n += k

    def set_postfix_str(self, s="", refresh=True):
      self.text = s

    def close(self):
      self.closed = True

  total, ini = ctx.int("total", 0, 9), ctx.int("initial", 0, 5)
  cb = opt.TqdmCallback(sample_opt=o, n_calls=total, n_initial_points=ini, tqdm_fn=Bar, **({} if minimum is None else {"minimum": minimum}))
  for rnd in range(2):
    ctx.check(not cb.started, "not started")
    before = len(bars)
    if ctx.choice(f"start{rnd}", [True, False]):
      cb.start()
      ctx.check(cb.started and len(bars) == before + 1, "started")
    for i in range(n):
      class Res:
        pass
      res = Res()
      res.x, res.fun = [11, 22], 33
      cb(res)
      ctx.check(cb.started and len(bars) == before + 1, "started once")
      b = bars[-1]
      ctx.check(b.total == total, "number of calls")
      ctx.check(b.n == i + 1, "one step for every call")
      if bool(i < ini):
        ctx.cover("randomize")
        ctx.check("randomize" in b.text and "minimize" not in b.text, "stage of the initial points")
      else:
        ctx.cover("minimize")
        ctx.check("minimize" in b.text and "randomize" not in b.text, "stage after the initial points")
      shown = all(s in b.text for s in ("p0=11", "p1=22", "33"))
      ctx.check(shown == (minimum is not False), "the minimum is shown when asked for")
    r = cb.reset()
    ctx.cover("reset")
    ctx.check(r is cb and all(b.closed for b in bars), "reset closes the display")


def configs(tier):
  q = [(f"loss{n}_{nd}_{c}", loss, dict(n=n, nd=nd, clip=c)) for n, nd, c in [(1, 0, None), (1, 2, True), (2, 1, True), (2, 2, False), (3, 1, None)]]
  q += [("losskw", loss, dict(n=1, nd=1, clip=None, losskw=False)), ("other", other, {})]
  q += [(f"min{nd}_{k}_{how}", minimize, dict(n=1, nd=nd, npts=k, how=how)) for nd, k, how in [(1, 2, "none"), (2, 2, "state"), (2, 1, "points"), (1, 1, "points only"), (2, 3, "none"), (1, 1, "starts")]]
  q += [("minnoclip", minimize, dict(n=2, nd=1, npts=1, how="none", clip=False))]
  q += [(f"progress{n}{m}", progress, dict(n=n, minimum=m)) for n, m in [(0, None), (2, None), (3, False), (4, True)]]
  if tier == "thorough":
    q += [("loss4", loss, dict(n=4, nd=1, clip=True)), ("min2_4", minimize, dict(n=2, nd=2, npts=3, how="state"))]
  return q
