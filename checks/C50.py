"""C50 parameters have the same effect wherever they are given"""
import math

from checks.lib import fake_modal

BOUNDS = ("audio of one partial on a bin of an 8-point transform, 2..3 frames, every amplitude and decay; every value of 2..4 parameters at once (sample rate, threshold, capacity, padding, direction, storage, frequency reduction, regression attributes, "
          "sub-models), given to the constructor, set one by one or together, given when fitting, by cloning, or through ready-made sub-models, after anything was set or fitted before")
OUTSIDE = "parameters of the beat regression that the optimiser reads (C16, C38); windows and transforms of other sizes; n_jobs other than 0 (C19)"
ASSUMPTIONS = ["scipy.fft.rfft computes the discrete Fourier transform exactly", "the regression is a stand-in that draws a line through the ends"]
COVERS = {"constructor", "set", "one by one", "fit", "clone", "sub-model", "refit", "plain", "beats", "kept", "tracks"}
N = 8
T = "sinusoidal__tracker__"


def line(ctx):
  base = ctx.mod("sklearn.base")

  class Line(base.BaseEstimator):

    def __init__(self, gain=1.):
      self.gain = gain

    def fit(self, x, y):
      x, y = ctx.np.reshape(x, (-1,)), ctx.np.reshape(y, (-1,))
      self.k_ = self.gain * (y[-1] - y[0]) / (x[-1] - x[0])
      self.q_ = y[0] - self.k_ * x[0]
      self.other_k, self.other_q = 2 * self.k_, self.q_ - 6
      return self

  return Line()


def beat(ctx):
  base = ctx.mod("sklearn.base")

  class Beat(base.BaseEstimator):

    def __init__(self, fs=100, lpf=50):
      self.fs, self.lpf = fs, lpf

    def fit(self, t, a, f, **kw):
      self.params_ = (.5, .25, f[0], f[0] + self.lpf, 1., 2., 0., self.fs / 1000)
      return self

  return Beat()


def last(x):
  return x[-1] + 3


def audio(ctx, m, fixed=False):
  if fixed:
    a, g = ctx.choice("a", [.8, .2]), ctx.choice("g", [.9, .6])
  else:
    a, g = ctx.real("a", .1, 1), ctx.real("g", .5, .99)
  for v, lo, hi in () if fixed else ((a, .1, 1), (g, .5, .99)):
    l = ctx.fn("log10")(v)
    ctx.assume(ctx.And(l >= math.log10(lo) - 1e-9, l <= math.log10(hi) + 1e-9))
  x = []
  for j in range(m):
    for i in range(N):
      v = a * round(math.cos(2 * math.pi * 2 * i / N + .25), 12)
      for _ in range(j):
        v = v * g
      x.append(v)
  return ctx.arr(x, float)


def window(ctx, c, n=N):
  return ctx.arr([c - (1 - c) * math.cos(2 * math.pi * i / n) for i in range(n)], float)


def equal(ctx, p, q):
  if ctx.np.ndim(q) == 1:
    return ctx.np.shape(p) == ctx.np.shape(q) and all(bool(a == b) for a, b in zip(p, q))
  return p is q or bool(p == q)


def value(ctx, k, i):
  leaf = k.split("__")[-1]
  if leaf == "w":
    return ctx.choice(f"v{i}", [window(ctx, .5), window(ctx, .54), window(ctx, .5, 6)])
  if leaf == "n":
    return ctx.choice(f"v{i}", [N, 2 * N])
  if leaf == "h":
    return ctx.choice(f"v{i}", [N, N // 2])
  if leaf == "frequency_bounds":
    return ctx.choice(f"v{i}", [(None, None), (600, None), (None, 100), (200, 300)])
  if leaf == "min_sine_dur":
    return ctx.choice(f"v{i}", [0, .02, 9])
  if leaf == "freq_dev_offset":
    return ctx.choice(f"v{i}", [0, 9])
  if leaf == "freq_dev_slope":
    return ctx.choice(f"v{i}", [.01, 0])
  if leaf in ("padded", "reverse", "save"):
    return bool(ctx.bool(f"v{i}"))
  if leaf == "freq_reduce":
    return ctx.choice(f"v{i}", [ctx.np.mean, last])
  if leaf == "regressor_k":
    return ctx.choice(f"v{i}", ["k_", "other_k"])
  if leaf == "regressor_q":
    return ctx.choice(f"v{i}", ["q_", "other_q"])
  if leaf == "max_n_modes":
    return ctx.int(f"v{i}", 0, 3)
  if leaf == "fs":
    return ctx.choice(f"v{i}", [800, 44100]) if "tracker" in k else ctx.int(f"v{i}", 1, 1000)
  if leaf == "t":
    return ctx.choice(f"v{i}", [-80, 10])
  if leaf == "peak_threshold":
    return ctx.choice(f"v{i}", [-70., 20.])
  if leaf == "lpf":
    return ctx.real(f"v{i}", 1, 99)
  if leaf == "gain":
    return ctx.choice(f"v{i}", [1., 3.])
  if leaf == "th":
    return ctx.choice(f"v{i}", [1, 1e20])
  raise KeyError(k)


def base_kw(ctx):
  w = [.5 - .5 * math.cos(2 * math.pi * i / N) for i in range(N)]
  return dict(sinusoidal__w=ctx.arr(w, float), sinusoidal__n=N, sinusoidal__t=-80, sinusoidal__tracker__fs=1000, sinusoidal__tracker__h=N, sinusoidal__tracker__min_sine_dur=0,
              sinusoidal__tracker__frequency_bounds=(None, None), sinusoidal__tracker__peak_threshold=-70., sinusoidal__tracker__freq_dev_offset=9)


def states(ctx, m):
  st = [m.sinusoidal.intermediate] + ([m.beat_decisor.intermediate] if hasattr(m, "beat_decisor") else [])
  return [sorted((k, len(v)) for k, v in (s.get_state() or {}).items()) for s in st]


def alike(ctx, a, b, msg):
  ctx.check(ctx.np.shape(a) == ctx.np.shape(b), msg + ": as many modes")
  if ctx.np.shape(a) == ctx.np.shape(b):
    for p, q in zip(ctx.np.reshape(a, (-1,)), ctx.np.reshape(b, (-1,))):
      ctx.eq(p, q, msg + ": values", tol=1e-9)


def ways(ctx, beats, keys, m):
  cls = ctx.mod("sample.beatsdrop.sample").SAMPLEBeatsDROP if beats else ctx.mod("sample.sample").SAMPLE
  if ctx.symbolic:
    ctx.patch(ctx.np, "angle", lambda z: ctx.np.zeros(len(z)))  # phases are not looked at
  v = {k: value(ctx, k, i) for i, k in enumerate(keys)}
  x = audio(ctx, m, any(k.endswith("__h") for k in keys))
  bk = base_kw(ctx)
  own = lambda: dict(regressor=line(ctx), **({"beatsdrop": beat(ctx)} if beats else {}))
  ctx.cover("beats" if beats else "plain")
  ref = cls(**own(), **{**bk, **v})
  ctx.check(ref.fit(x) is ref, "fit returns the model")
  want = ref.param_matrix_
  t = ctx.arr([.01, .02], float)
  ctx.cover("constructor")
  if ctx.np.shape(want)[1]:
    ctx.cover("tracks")

  def judge(o, what):
    p = o.get_params()
    for k in keys:
      ctx.check(k in p and equal(ctx, p[k], v[k]), f"{what}: {k} is kept")
      ctx.cover("kept")
    alike(ctx, o.param_matrix_, want, what)
    ctx.check(states(ctx, o) == states(ctx, ref), what + ": stored results")
    ctx.check(o.sdt_params_()["activeModes"] == ref.sdt_params_()["activeModes"], what + ": active modes")

  judge(ref, "constructor")
  # set together, later
  b = cls(**own(), **bk)
  ctx.check(b.set_params(**v) is b, "setting returns the model")
  judge(b.fit(x), "set")
  ctx.cover("set")
  # one by one, in the other order
  b = cls(**own(), **bk)
  for k in reversed(keys):
    b.set_params(**{k: v[k]})
  judge(b.fit(x), "set one by one")
  ctx.cover("one by one")
  # when fitting
  b = cls(**own(), **bk)
  judge(b.fit(x, **v), "given when fitting")
  ctx.cover("fit")
  # when fitting something else was set and fitted before
  b = cls(**own(), **bk)
  b.set_params(**{k: d for k, d in {"max_n_modes": 1, "sinusoidal__t": 20, "sinusoidal__w": window(ctx, .7), "sinusoidal__n": N, T + "h": 5, T + "frequency_bounds": (100, 400), "regressor_k": "k_", "sinusoidal__intermediate__save": True, "sinusoidal__tracker__reverse": False}.items() if k in keys})
  b.fit(x)
  judge(b.fit(x, n_jobs=0, **v), "given when fitting again")
  judge(b.fit(x), "fitting again without parameters")
  ctx.cover("refit")
  # clones
  c = ctx.mod("sklearn.base").clone(ref)
  ctx.check(not hasattr(c, "param_matrix_"), "a clone is not fitted")
  judge(c.fit(x), "clone")
  ctx.cover("clone")
  # ready-made sub-models
  mm = ctx.mod("sample.sms.mm")
  allk = {**bk, **v}
  tr = mm.ModalTracker(**{k[21:]: w for k, w in allk.items() if k.startswith("sinusoidal__tracker__")})
  sm = mm.ModalModel(tracker=tr, **{k[12:]: w for k, w in allk.items() if k.startswith("sinusoidal__") and not k.startswith("sinusoidal__tracker__")})
  o = own()
  for k, w in allk.items():
    if k.startswith("regressor__"):
      o["regressor"].set_params(**{k[11:]: w})
    elif k.startswith("beatsdrop__"):
      o["beatsdrop"].set_params(**{k[11:]: w})
  if beats:
    dec = ctx.mod("sample.beatsdrop.decision")
    o["beat_decisor"] = dec.AlmostNotABeatDecisor(**{k[14:]: w for k, w in allk.items() if k.startswith("beat_decisor__")})
  b = cls(sinusoidal=sm, **o, **{k: w for k, w in allk.items() if "__" not in k})
  ctx.check(b.sinusoidal is sm and b.sinusoidal.tracker is tr and b.regressor is o["regressor"], "given sub-models are used")
  judge(b.fit(x), "sub-models")
  ctx.cover("sub-model")


def configs(tier):
  plain = [["regressor_k", "regressor_q"], ["freq_reduce", "sinusoidal__padded"], [T + "fs", T + "reverse"], ["sinusoidal__t", "sinusoidal__intermediate__save"],
           ["max_n_modes", T + "peak_threshold"], ["regressor__gain", T + "reverse"], [T + "fs", "regressor_k", "sinusoidal__t"]]
  beats = [["regressor_k", "max_n_modes"], ["regressor_q", "freq_reduce"], ["beat_decisor__intermediate__save", "beatsdrop__lpf"], [T + "fs", "beat_decisor__th"], ["regressor__gain", "beat_decisor__th", "sinusoidal__intermediate__save"]]
  plain += [["sinusoidal__w"], ["sinusoidal__n", "sinusoidal__w"], [T + "h"], [T + "frequency_bounds", T + "min_sine_dur"], [T + "freq_dev_offset", T + "freq_dev_slope"]]
  beats += [["sinusoidal__w", T + "frequency_bounds"]]
  if tier == "thorough":
    plain += [[T + "fs", T + "reverse", "sinusoidal__padded", "freq_reduce"], ["regressor_k", "regressor_q", "sinusoidal__t", "max_n_modes"]]
    beats += [["regressor_k", "regressor_q", "freq_reduce", "max_n_modes"], ["beatsdrop__lpf", T + "reverse", "beat_decisor__th", "sinusoidal__intermediate__save"]]
  for b, gs in ((False, plain), (True, beats)):
    for g in gs:
      for m in (2,) if tier == "quick" else (2, 3):
        yield f"{'beats' if b else 'plain'} {m} {','.join(g)}", ways, dict(beats=b, keys=g, m=m), {"mono": True, "snap": True, "exp_split": True}
