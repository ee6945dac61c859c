"""C44 plots show tracks, signals and models where they belong"""
import math
import types

GUI = True
BOUNDS = ("0..3 tracks of 1..3 frames with any start frame, frequencies and magnitudes, with or without stored spectra, beats and reversal; signals of 2..3 samples (4 thorough), 0..3 models; "
          "time-frequency matrices of 2x2 values with any limits; comparisons of 1..3 beat models; every value")
OUTSIDE = "rendering by matplotlib (axes are stand-ins that record what is drawn and where); the analysis, the beat regression, the short-time and the Hilbert transform (stand-ins with arbitrary results)"
ASSUMPTIONS = ["axes refuse images that are not matrices and plots of different lengths"]
COVERS = {"2d", "3d", "reverse", "stored", "not stored", "dashed", "no tracks", "resynthesis", "no original", "rate given", "decibel", "linear", "comparison", "one model", "transposed",
          "envelope", "matrix", "below -60 dB"}


class Axes:

  def __init__(self, ctx, fig=None):
    self.ctx, self.fig, self.log, self.on = ctx, fig, [], True
    self.xl, self.yl, self.ylabel = (0, 1), (0, 1), ""
    self.xaxis = self.yaxis = self

  def get_figure(self):
    return self.fig

  def get_gridspec(self):
    return {(0, slice(None)): "top"} if False else Grid()

  def remove(self):
    self.on = False

  def get_xlim(self):
    return self.xl

  def get_ylim(self):
    return self.yl

  def set_xlim(self, v):
    self.xl = tuple(v)

  def set_ylim(self, v):
    self.yl = tuple(v)

  def get_ylabel(self):
    return ""

  def imshow(self, x, **k):
    if self.ctx.np.ndim(x) != 2:
      raise TypeError("Invalid shape for image data")
    self.log.append(("image", x, k))

  def plot(self, *a, **k):
    xs = [v for v in a if not isinstance(v, str)]
    if len({len(v) for v in xs}) != 1:
      raise ValueError("x and y must have same first dimension")
    self.log.append(("plot", [list(v) for v in xs], [v for v in a if isinstance(v, str)], k))

  def fill_between(self, x, a, b, **k):
    self.log.append(("fill", [list(x), list(a), list(b)], [], k))

  def set_title(self, s):
    self.title = s

  def __getattr__(self, k):
    if k.startswith("__") or k in ("title",):
      raise AttributeError(k)
    return lambda *a, **kw: None


class Grid:

  def __getitem__(self, k):
    return "grid", k


class Fig:
  """a figure that makes axes as matplotlib does"""

  def __init__(self, ctx):
    self.ctx, self.made, self.size = ctx, [], None

  def subplots(self, nr=1, nc=1, squeeze=True, **k):
    import numpy
    a = numpy.empty((nr, nc), dtype=object)
    for i in range(nr):
      for j in range(nc):
        a[i, j] = Axes(self.ctx, self)
    self.made.append(a)
    if not squeeze:
      return a
    return a.item() if a.size == 1 else a.squeeze()

  def add_subplot(self, spec, **k):
    x = Axes(self.ctx, self)
    x.spec = spec
    return x

  def set_size_inches(self, v):
    self.size = list(v)


def same(ctx, a, b, msg, tol=1e-9):
  ctx.check(len(a) == len(b), msg + " (length)")
  if len(a) == len(b):
    for u, v in zip(a, b):
      ctx.eq(u, v, msg, tol=tol)


def sine(ctx, three, lens, reverse, save, beats, own, frames=8):
  plots = ctx.mod("sample.plots")
  bs, smp, learn = ctx.mod("sample.beatsdrop.sample"), ctx.mod("sample.sample"), ctx.mod("sample.utils.learn")
  np = ctx.np
  fs, h = ctx.real("fs", 1, 192000), ctx.int("h", 1, 8192)
  tr, kept = [], []
  for i, n in enumerate(lens):
    f, m, s = ctx.reals(f"f{i}_", n), ctx.reals(f"m{i}_", n), ctx.int(f"s{i}_", 0, frames - n)
    kept.append((f, m, s))
    tr.append({"start_frame": s, "freq": ctx.arr(f, float), "mag": ctx.arr(m, float), "phase": ctx.arr(f, float)})
  store = learn.OptionalStorage(save=save)
  if save and frames:
    store.cache_ = {"stft": [None] * frames}
  trk = types.SimpleNamespace(**({"reverse": reverse} if reverse is not None else {}))
  s = types.SimpleNamespace(tracks_=tr, h=h, fs=fs, tracker=trk, intermediate=store)
  dec = None
  if own:
    m = s
  elif beats is None:
    m = smp.SAMPLE(sinusoidal=s)
  else:
    m = bs.SAMPLEBeatsDROP(sinusoidal=s)
    m.beat_decisor.intermediate.save = beats
    if beats:
      dec = ctx.bools("beat", len(lens))
      m.beat_decisor.intermediate.cache_ = {"decision": list(dec)}
  if three:
    ax = Axes(ctx)
    r, exc = ctx.raises(lambda: plots.sine_tracking_3d(m, ax=ax), KeyError, ValueError, TypeError)
    axs = [ax]
  else:
    axs = [Axes(ctx), Axes(ctx)]
    r, exc = ctx.raises(lambda: plots.sine_tracking_2d(m, ax=axs, linewidth=7), KeyError, ValueError, TypeError)
  ctx.check(exc is None, "tracks are drawn")
  if exc is not None:
    return
  ctx.check(r is (axs[0] if three else axs), "the axes are returned")
  if reverse:
    if save:
      total = frames
    else:
      total = 0
      for f, _, s0 in kept:
        total = ctx.ite(s0 + len(f) > total, s0 + len(f), total)
  for j, ax in enumerate(axs):
    got = [c for c in ax.log if c[0] == "plot"]
    ctx.check(len(got) == len(lens), "one line per track")
    if len(got) != len(lens):
      return
    for i, (f, mg, s0) in enumerate(kept):
      _, d, st, k = got[i]
      want = [(s0 + q) * h / fs for q in range(len(f))]
      if reverse:
        want = [total * h / fs - v for v in want]
      same(ctx, d[0], want, "time of a track")
      if three:
        same(ctx, d[1], f, "frequency of a track", tol=0)
        same(ctx, d[2], mg, "magnitude of a track", tol=0)
      else:
        same(ctx, d[1], (f, mg)[j], "frequency or magnitude of a track", tol=0)
        ctx.check(k == {"linewidth": 7}, "line properties")
      if dec is not None and bool(dec[i]):
        ctx.check(st == ["--"], "beats are dashed")
        ctx.cover("dashed")
      else:
        ctx.check(st == ["-"], "other tracks are not")
  ctx.cover("3d" if three else "2d")
  if reverse:
    ctx.cover("reverse")
  ctx.cover("stored" if save else "not stored")
  if not lens:
    ctx.cover("no tracks")


def matrix(ctx, lims, own):
  plots = ctx.mod("sample.plots")
  v = ctx.reals("v", 4)
  tf = ctx.arr([v[:2], v[2:]], float)
  kw, L = {}, {}
  for k, d in (("tlim", (0, 1)), ("flim", (0, 1)), ("xlim", None), ("ylim", None)):
    if k in lims:
      a = ctx.real(k + "0", -100, 100)
      b = ctx.real(k + "1", -100, 200)
      ctx.assume(a < b)
      kw[k] = L[k] = (a, b)
    else:
      L[k] = d
  L["xlim"] = L["tlim"] if L["xlim"] is None else L["xlim"]
  L["ylim"] = L["flim"] if L["ylim"] is None else L["ylim"]
  r = ctx.real("ratio", .1, 10)
  wd = ctx.real("width", 1, 20)
  fig = Fig(ctx)
  ax = Axes(ctx, fig)
  ctx.patch(plots, "plt", types.SimpleNamespace(gca=lambda: ax))
  got = plots.tf_plot(tf, ax=None if own else ax, aspect_ratio=r, width=wd, cmap="x", **kw)
  ctx.check(got is ax, "the axes are returned")
  im = [c for c in ax.log if c[0] == "image"]
  ctx.check(len(im) == 1, "one image")
  if len(im) != 1:
    return
  _, x, k = im[0]
  same(ctx, [x[i, j] for i in range(2) for j in range(2)], v, "the matrix", tol=0)
  same(ctx, list(k["extent"]), [*L["tlim"], *L["flim"]], "position of the matrix", tol=0)
  ctx.check(k["origin"] == "lower" and k["cmap"] == "x", "low frequencies at the bottom")
  asp = k["aspect"]
  asp = asp[0] if ctx.np.ndim(asp) else asp
  ctx.eq(asp * (L["ylim"][1] - L["ylim"][0]) * r, L["xlim"][1] - L["xlim"][0], "aspect ratio of the plotted region", tol=1e-6)
  same(ctx, ax.xl, L["xlim"], "time limits", tol=0)
  same(ctx, ax.yl, L["ylim"], "frequency limits", tol=0)
  if own:
    same(ctx, fig.size, [r * wd, wd], "size of the figure")
  else:
    ctx.check(fig.size is None, "given figures are not resized")
  ctx.cover("matrix")


def resyn(ctx, n, nm, original, rate, db, axes):
  plots = ctx.mod("sample.plots")
  xs = ctx.reals("x", n, -1, 1)
  models, rates = {}, []

  def model(i):
    ys = ctx.reals(f"y{i}_", n, -1, 1)
    r = ctx.real(f"fs{i}", 1, 1e5)
    rates.append(r)
    m = types.SimpleNamespace(sinusoidal=types.SimpleNamespace(fs=r), asked=[], ys=ys)

    def predict(t):
      m.asked.append(list(t))
      return ctx.arr(ys, float)
    m.predict = predict
    return m
  for i in range(nm):
    models[f"model {i}"] = model(i)
  fs = ctx.real("fs", 1, 1e5) if rate else None
  tfs, seen = [], []

  def tf_fun(x, fs):
    v = ctx.reals(f"tf{len(tfs)}_", 4, .5, 2)
    lim = ctx.real(f"lo{len(tfs)}", 0, 1), ctx.real(f"hi{len(tfs)}", 2, 3)
    tfs.append((list(x), fs, v, lim))
    return lim, ctx.arr([v[:2], v[2:]], float)
  fig = Fig(ctx)
  total = nm + original
  kw = {}
  if axes:
    kw["axs"] = [Axes(ctx, fig) for _ in range(total + 1)]
  elif axes is None:
    kw["fig"] = fig
  ctx.patch(plots, "plt", types.SimpleNamespace(gcf=lambda: fig))
  floor = ctx.real("floor", -200, -10) if db else None
  dbs = []
  if db:
    def complex2db(x, floor=None, floor_db=False):
      w = ctx.reals(f"db{len(dbs)}_", 4)
      dbs.append((x, floor, floor_db, w))
      return ctx.arr([w[:2], w[2:]], float)
    ctx.patch(plots.dsp_utils, "complex2db", complex2db)
  f, axs = plots.resynthesis(ctx.arr(xs, float), models if nm or not original else None, fs=fs, original=original, tf_fun=tf_fun, db_floor=floor,
                             foreach=lambda *a: seen.append(a), wav_kws={"alpha": .3}, tf_kws={"cmap": "c"}, **kw)
  ctx.check(f is fig, "the figure is returned")
  ctx.check(len(axs) == total + 1, "one axis for the waveforms and one for each signal")
  if axes:
    ctx.check(axs is kw["axs"], "on the given axes")
  if rate:
    want = fs
  elif nm:
    want = rates[0]
    for r in rates[1:]:
      want = ctx.ite(r > want, r, want)
  else:
    want = 44100
  sig = ([("Original", xs)] if original else []) + [(k, m.ys) for k, m in models.items()]
  wav = [c for c in axs[0].log if c[0] == "plot"]
  ctx.check(len(wav) == total == len(tfs) == len(seen), "every signal is drawn once")
  if not len(wav) == total == len(tfs) == len(seen):
    return
  for k, m in models.items():
    ctx.check(len(m.asked) == 1, "every model is resynthesised once")
    same(ctx, m.asked[0], [i / want for i in range(n)], "at the instants of the samples")
  for i, (k, y) in enumerate(sig):
    _, d, _, kws = wav[i]
    same(ctx, d[0], [j / want for j in range(n)], "time axis of the waveform")
    same(ctx, d[1], y, "waveform", tol=0)
    ctx.check(kws["label"] == k and kws["alpha"] == .3 and kws["zorder"] == 100, "label and style")
    x, r, v, lim = tfs[i]
    same(ctx, x, y, "the signal is transformed", tol=0)
    ctx.eq(r, want, "at its sample rate", tol=0)
    im = [c for c in axs[i + 1].log if c[0] == "image"]
    ctx.check(len(im) == 1 and axs[i + 1].title == k, "on its own axis, with its title")
    if len(im) != 1:
      return
    _, z, q = im[0]
    if db:
      ctx.check(dbs[i][2] is True, "floor in decibel")
      ctx.eq(dbs[i][1], floor, "the given floor", tol=0)
      same(ctx, [dbs[i][0][a, b] for a in range(2) for b in range(2)], v, "the transform is converted in decibel", tol=0)
      v = dbs[i][3]
    same(ctx, [z[a, b] for a in range(2) for b in range(2)], v, "time-frequency matrix", tol=0)
    same(ctx, list(q["extent"]), [0, (n - 1) / want, *lim], "its position")
    ctx.check(q["cmap"] == "c", "style")
    ctx.check(seen[i][:2] == (i, k), "callback: index and label")
    same(ctx, list(seen[i][2]), y, "callback: signal", tol=0)
  ctx.cover("resynthesis")
  if not original:
    ctx.cover("no original")
  if rate:
    ctx.cover("rate given")
  ctx.cover("decibel" if db else "linear")


def compare(ctx, nb, transpose, env, axes, n=2):
  plots = ctx.mod("sample.plots")
  base = ctx.mod("sklearn.base")
  np = ctx.np
  k = 2
  tt, mg, fr = ctx.reals("t", k, 0, 9), ctx.reals("m", k, -90 if nb == 1 else -59, 0), ctx.reals("f", k, 1, 1e4)
  tracks = [object(), object()]
  ti = ctx.choice("track", [0, 1])
  xs = ctx.reals("x", n, -1, 1)
  rate = ctx.real("fs", 1, 1e5)
  asked = []

  def pre(i, x, t):
    asked.append((x, t))
    return i, ctx.arr(tt, float), {"mag": ctx.arr(mg, float), "freq": ctx.arr(fr, float)}
  model = types.SimpleNamespace(sinusoidal=types.SimpleNamespace(fs=rate, tracks_=tracks), _preprocess_track=pre)
  log = []

  class Beat(base.BaseEstimator):

    def __init__(self, tag=None):
      self.tag = tag

    def fit(self, t, a, f):
      self.given = list(t), list(a), list(f)
      i = self.tag
      self.am, self.a0, self.a1, self.fm = (ctx.reals(f"{q}{i}_", k, 1e-5 if nb == 1 else 2e-3, 2) for q in ("am", "a0", "a1", "fm"))
      self.params_ = ctx.reals(f"p{i}_", 8, 0, 1e4)
      log.append(self)
      return self

    def predict(self, t, *what):
      self.asked = list(t), what
      return [ctx.arr(list(getattr(self, q)), float) for q in what]
  given = {f"beat {i}": Beat(i) for i in range(nb)}
  fig = Fig(ctx)
  kw = {}
  if axes:
    import numpy
    kw["axs"] = fig.subplots(3, nb, squeeze=False)
  ctx.patch(plots, "plt", types.SimpleNamespace(gcf=lambda: fig))
  if env:
    hil = ctx.reals("h", n, 0, 3)
    ctx.patch(plots, "signal", types.SimpleNamespace(hilbert=lambda x: ctx.arr(hil, float)))
  x = ctx.arr(xs, float)
  r, exc = ctx.raises(lambda: plots.beatsdrop_comparison(model, given, x, track_i=ti, transpose=transpose, signal_hilbert_am=env, **kw), TypeError, ValueError, IndexError, AttributeError)
  ctx.check(exc is None, "the comparison is drawn" + (f" ({exc})" if exc is not None else ""))
  if exc is not None:
    return
  f, axs = r
  ctx.check(f is fig, "the figure is returned")
  ctx.check(np.shape(axs) == ((nb, 3) if transpose and not axes else (3, nb)), "one column (row, if transposed) per model")
  if np.shape(axs) != ((nb, 3) if transpose and not axes else (3, nb)):
    return
  at = (lambda r, c: axs[c][r]) if transpose and not axes else (lambda r, c: axs[r][c])
  ctx.check(len(asked) == 1 and asked[0][0] is x and asked[0][1] is tracks[ti], "the chosen track")
  ctx.check(len(log) == nb and not any(b is g for b in log for g in given.values()) and not any(hasattr(g, "params_") for g in given.values()), "copies of the models are fitted")
  for i, b in enumerate(log):
    ctx.check(b.tag == i, "every model is fitted")
    for got, w in zip(b.given, (tt, mg, fr)):
      same(ctx, got, w, "fitted on the track", tol=0)
    same(ctx, b.asked[0], tt, "predicted at the instants of the track", tol=0)
    amp = [ctx.mod("sample.utils.dsp").db2a(ctx.arr([v], float))[0] for v in mg]
    top, mid, bot = at(0, i).log, at(1, i).log, at(2, i).log
    ctx.check(at(0, i).title == f"beat {i}", "title")
    ctx.check([c[0] for c in top] == (["fill"] if env else ["plot"]) + ["plot"] * 4 and len(mid) == 4 and len(bot) == 4, "all lines are drawn")
    if not (len(top) == 5 and len(mid) == 4 and len(bot) == 4):
      return
    if env:
      st = 1 if env is True else env
      idx = [j * st for j in range(n // st)]
      same(ctx, top[0][1][0], [j / rate for j in idx], "time of the envelope")
      same(ctx, top[0][1][1], [hil[j] for j in idx], "envelope")
      same(ctx, top[0][1][2], [-hil[j] for j in idx], "envelope")
      ctx.cover("envelope")
    else:
      same(ctx, top[0][1][0], [j / rate for j in range(n)], "time of the signal")
      same(ctx, top[0][1][1], xs, "signal", tol=0)
    for got, db, w in zip(top[1:], mid, (amp, b.am, b.a0, b.a1)):
      same(ctx, got[1][0], tt, "time", tol=0)
      same(ctx, got[1][1], w, "amplitude", tol=1e-9)
      same(ctx, db[1][0], tt, "time", tol=0)
      for u, v in zip(db[1][1], w):
        low = bool(v <= 10**-3)
        ctx.check(bool(np.isnan(u)) == low, "levels up to -60 dB are not drawn")
        if not low:
          ctx.eq(u, ctx.mod("sample.utils.dsp").a2db(ctx.arr([v], float))[0], "amplitude in decibel", tol=1e-6)
        else:
          ctx.cover("below -60 dB")
    for got, w in zip(bot, (fr, [v / (2 * math.pi) for v in b.fm], [b.params_[2]] * k, [b.params_[3]] * k)):
      same(ctx, got[1][0], tt, "time", tol=0)
      same(ctx, got[1][1], w, "frequency", tol=1e-9)
  ctx.cover("comparison")
  if nb == 1:
    ctx.cover("one model")
  if transpose:
    ctx.cover("transposed")


def configs(tier):
  th = tier == "thorough"
  for three in (False, True):
    for lens in ([], [1], [2, 1], [1, 3, 2]):
      for rev in (None, False, True):
        for save in (False, True):
          if len(lens) == 3 and not th and rev is not True:
            continue
          yield f"sine 3d={three} {lens} reverse={rev} save={save}", sine, dict(three=three, lens=lens, reverse=rev, save=save, beats=None, own=False)
    for beats in (False, True):
      for rev in (False, True):
        yield f"beats 3d={three} {beats} reverse={rev}", sine, dict(three=three, lens=[2, 1], reverse=rev, save=True, beats=beats, own=False)
    for save in (False, True):
      yield f"own 3d={three} save={save}", sine, dict(three=three, lens=[2, 2], reverse=True, save=save, beats=None, own=True)
    yield f"no frames 3d={three}", sine, dict(three=three, lens=[], reverse=True, save=True, beats=None, own=False, frames=0)
  for lims in ([], ["tlim"], ["flim"], ["tlim", "flim"], ["xlim"], ["tlim", "ylim"], ["tlim", "flim", "xlim", "ylim"]):
    for own in (False, True):
      yield f"matrix {lims} {own}", matrix, dict(lims=lims, own=own)
  for n in (2, 3, 4) if th else (2, 3):
    for nm in (0, 1, 2) if n == 3 and not th else (1, 3):
      for orig in (True, False):
        if not nm and not orig:
          continue
        for rate in (False, True):
          yield f"resynthesis n={n} models={nm} original={orig} rate={rate}", resyn, dict(n=n, nm=nm, original=orig, rate=rate, db=rate != orig, axes=[None, True, False][(n + nm + rate) % 3])
  for nb in (1, 2, 3) if th else (1, 2):
    for tr in (False, True):
      for env in (False, True, 2):
        if nb == 2 and env and not th:
          continue
        yield f"comparison {nb} transpose={tr} envelope={env}", compare, dict(nb=nb, transpose=tr, env=env, axes=False, n=5 if env == 2 else 3 if env else 2)
    yield f"comparison {nb} on given axes", compare, dict(nb=nb, transpose=True, env=False, axes=True)
