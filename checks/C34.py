"""C34 hyper-parameter remapping yields valid analysis settings"""
BOUNDS = "exponents 0..4 (5 thorough) or a given FFT size 1..16 (32), window fractions from 0 up to 1.25 and overlaps from -1 to 2 (symbolic reals), every combination of given and omitted FFT size, window, hop and other parameters, current and deprecated names; with the default FFT size or window only a few fractions; 0..3 dimensions with 0..4 values"
OUTSIDE = "the hop of an empty window; shape of the window (scipy.signal.get_window is replaced by a stand-in that records what is asked for); larger FFT sizes; floating-point rounding of n * fraction and (1 - overlap) * size"
ASSUMPTIONS = ["get_window(type, m) returns m samples"]
COVERS = {"log_n", "n kept", "n over log_n", "default n", "window made", "window kept", "hop made", "hop kept", "hop raised to one", "hop lowered to window", "hop exact", "empty window", "pass through", "old names", "bound by name", "count mismatch", "no remap"}


def windows(ctx):
  made = []

  def get_window(window, Nx, fftbins=True):
    m = int(Nx)
    if m != Nx:
      raise ValueError("Window length must be an integer")
    w = ctx.arr([1. + i for i in range(m)], float)
    made.append((window, m, w))
    return w
  ctx.patch(ctx.mod("scipy.signal"), "get_window", get_window)
  return made


OLD = {"sinusoidal__log_n": "sinusoidal_model__log_n", "sinusoidal__wtype": "sinusoidal_model__wtype",
       "sinusoidal__wsize": "sinusoidal_model__wsize", "sinusoidal__overlap": "sinusoidal_model__overlap"}


def remap(ctx, size, given_w, given_h, top, old):
  opt = ctx.mod("sample.optimize")
  fl = ctx.fn("floor")
  made = windows(ctx)
  kw = {}
  n = 2048
  if size == "given" or size == "both":
    n = kw["sinusoidal__n"] = ctx.choice("n", [k for k in (1, 2, 3, 5, 7, 8, 16, 32) if k <= 2**top])
  if size == "log" or size == "both":
    e = ctx.int("log_n", 0, top)
    kw["sinusoidal__log_n"] = e
    if size == "log":
      n = 2**int(e)
  if size == "none":
    kw["sinusoidal__log_n"] = None
  frac, ov, wt = 1, 0.5, "hamming"
  more = ctx.choice("others", [True, False])
  if more:
    wt = kw["sinusoidal__wtype"] = "blackman"
  if ctx.choice("fraction_given", [True, False]):
    frac = kw["sinusoidal__wsize"] = ctx.choice("fraction", [0., 0.001, 0.002]) if n == 2048 else ctx.real("fraction", 0, 1.25)
  elif n == 2048 and not given_w:
    frac = kw["sinusoidal__wsize"] = 0.002
  if given_w:
    m = ctx.choice("m", [0, 1, 3, 4])
    w = kw["sinusoidal__w"] = ctx.arr([2.5] * m, float)
  if given_h:
    h = kw["sinusoidal__tracker__h"] = ctx.int("h", 1, 1000)
  if ctx.choice("overlap_given", [True, False]):
    ov = kw["sinusoidal__overlap"] = ctx.real("overlap", -1, 2)
  oth = {}
  if more:
    oth = {"max_n_modes": ctx.int("modes", 1, 50), "sinusoidal__t": ctx.real("th", -200, 0), "sinusoidal__tracker__fs": ctx.real("fs", 1, 96000)}
    ctx.cover("pass through")
  kw.update(oth)
  call = dict(kw)
  if old:
    call = {OLD.get(k, k): v for k, v in kw.items()}
    ctx.cover("old names")
  before = dict(call)
  import warnings
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    r, exc = ctx.raises(lambda: opt.sample_kwargs_remapper(**call), ValueError, TypeError, KeyError, AttributeError)
  ctx.check(exc is None, "no exception")
  if exc is not None:
    return
  ctx.check(list(call) == list(before), "arguments are not changed")
  want = set(oth) | {"sinusoidal__w", "sinusoidal__tracker__h"} | ({"sinusoidal__n"} if size != "none" else set())
  ctx.check(set(r) == want, "names of the settings")
  if set(r) != want:
    return
  for k, v in oth.items():
    ctx.eq(r[k], v, "passes through: " + k, tol=0)
  if size == "none":
    ctx.cover("default n")
  else:
    ctx.check(r["sinusoidal__n"] == n, "FFT size")
    ctx.cover({"log": "log_n", "given": "n kept", "both": "n over log_n"}[size])
  if given_w:
    ctx.check(r["sinusoidal__w"] is w and not made, "given window is kept")
    ctx.cover("window kept")
  else:
    m = fl(n * frac)
    ctx.check(len(made) >= 1, "a window is made")
    if not made:
      return
    hit = [x for x in made if x[2] is r["sinusoidal__w"]]
    ctx.check(len(hit) == 1, "the window made is used")
    if not hit:
      return
    ctx.check(hit[0][0] == wt, "window type")
    ctx.check(hit[0][1] == m, "window length")
    m = hit[0][1]
    ctx.cover("window made")
  hop = r["sinusoidal__tracker__h"]
  if given_h:
    ctx.check(hop == h, "given hop is kept")
    ctx.cover("hop kept")
    return
  ctx.cover("hop made")
  if m == 0:  # no hop is right for an empty window
    ctx.cover("empty window")
    return
  raw = (1 - ov) * m
  ctx.check(hop >= 1, "hop at least one")
  ctx.check(ctx.Or(hop <= m, hop == 1), "hop not longer than the window")
  f = fl(raw)
  inside = ctx.And(f >= 1, f <= m)
  ctx.implies(inside, hop == f, "hop is (1 - overlap) * window")
  if bool(inside):
    ctx.cover("hop exact")
  elif bool(f > m):
    ctx.implies(m >= 1, hop == m, "hop limited by the window")
    ctx.cover("hop lowered to window" if m else "hop raised to one")
  else:
    ctx.check(hop == 1, "hop is at least one")
    ctx.cover("hop raised to one")


def bind(ctx, nd, na, mode):
  """dimension values reach the model by name"""
  opt = ctx.mod("sample.optimize")
  base = ctx.mod("sklearn.base")
  windows(ctx)
  names = ["zeta", "alpha", "mid"][:nd]
  dims = {k: (0., 1.) for k in names}
  vals = ctx.reals("v", na)
  seen, rec = [], []

  class Model(base.BaseEstimator):

    def __init__(self, tag=0):
      self.tag = tag

    def set_params(self, **k):
      seen.append(k)
      return self

    def fit(self, x, y=None, **k):
      return self

    def predict(self, t, phases=None):
      return ctx.arr([0.] * len(t), float)

  def rm(**k):
    rec.append(dict(k))
    return {**{"r_" + a: b for a, b in k.items()}}
  if mode == "sample":
    names = ["sinusoidal__overlap", "max_n_modes"]
    dims = {k: (0., 1.) for k in names}
    vals = [ctx.real("overlap", 0, 0.9), ctx.int("modes", 1, 9)]
  kw = {"none": {"remap": None}, "custom": {"remap": rm}, "sample": {}}[mode]
  x = ctx.arr([1., -1.], float)
  fs = ctx.real("fs", 1, 50000)
  ext = {"extra": ctx.real("extra")} if mode != "sample" and ctx.choice("extra_given", [True, False]) else {}
  o = opt.SAMPLEOptimizer(model=Model(), loss_fn=lambda a, b, **k: 0., **kw, **dims)
  f = o.loss(x, fs)
  r, exc = ctx.raises(lambda: f(vals, **ext), ValueError, TypeError, KeyError)
  if len(vals) != len(names):
    ctx.check(isinstance(exc, ValueError), "values and dimensions do not match: rejected")
    ctx.check(not any(k for k in seen), "nothing is set")
    ctx.cover("count mismatch")
    return
  ctx.check(exc is None, "no exception")
  if exc is not None:
    return
  got = {}
  for k in seen:
    got.update(k)
  if mode == "sample":
    ctx.eq(got.get("max_n_modes", -1), vals[1], "by name: max_n_modes", tol=0)
    fl = ctx.fn("floor")
    hop = got.get("sinusoidal__tracker__h", -1)
    w = got.get("sinusoidal__w")
    ctx.check(w is not None, "a window is set")
    if w is not None:
      e = fl((1 - vals[0]) * len(w))
      ctx.check(ctx.Or(hop == e, ctx.And(e < 1, hop == 1)), "by name: overlap")
  else:
    want = {**dict(zip(names, vals)), "sinusoidal__tracker__fs": fs, **ext}
    if mode == "custom":
      ctx.check(len(rec) == 1 and set(rec[0]) == set(want), "the remapper gets every parameter")
      want = {"r_" + a: b for a, b in want.items()}
    ctx.check(set(got) == set(want), "names of the settings")
    for k, v in want.items():
      if k in got:
        ctx.eq(got[k], v, "by name: " + k, tol=0)
  ctx.cover("no remap" if mode == "none" else "bound by name")


def configs(tier):
  top = 4 if tier == "quick" else 5
  for size in ("none", "log", "given", "both"):
    for gw in (False, True):
      for gh in (False, True):
        yield f"remap {size} w={gw} h={gh}", remap, dict(size=size, given_w=gw, given_h=gh, top=top, old=False)
  yield "remap old names", remap, dict(size="log", given_w=False, given_h=False, top=2, old=True)
  for mode in ("custom", "none"):
    for nd in range(4):
      for na in range(5):
        if abs(nd - na) < 2:
          yield f"bind {mode} {nd} {na}", bind, dict(nd=nd, na=na, mode=mode)
  yield "bind sample", bind, dict(nd=2, na=2, mode="sample")
