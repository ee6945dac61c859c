"""C48 models, beats and filters survive copying"""
import copy
import io
import pickle
import types

BOUNDS = ("every copy of (shallow, deep, pickled, scikit-learn clone where it applies): beats with constant, decaying and time-varying parameters, fitted regressions with any coefficients, fitted models with 0..3 modes of any value, "
          "trackers with 1..2 frames of any peaks before and after the copy, storages with 0..2 items, filters and filterbanks of 1..2 filters, losses on signals of 4 samples, generators with any draws; every subset of the changes made to the copy")
OUTSIDE = "pickling regressions that keep their residual function (a local function) after fitting; pickled byte strings of other versions; numbers and arrays pickled by NumPy (kept as they are)"
ASSUMPTIONS = ["copying or pickling a number or an array gives the same value"]
COVERS = {"copy", "deepcopy", "pickle", "clone", "beat", "decaying", "callable", "sample", "beatsdrop", "hinge", "regression", "tracker", "storage", "filter", "bank", "irs", "loss", "generator", "altered", "no attribute"}
WAYS = ["copy", "deepcopy", "pickle"]


def pickled(ctx, obj):
  """round trip through the pickle protocol, in which numbers, types and functions are kept by reference"""
  kept = []

  def is_kept(o):
    m = getattr(type(o), "__module__", None) or ""
    return isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)) or m.split(".")[0] in ("symx", "checks", "numpy")

  class P(pickle._Pickler):  # pylint: disable=W0212

    def persistent_id(self, o):
      if isinstance(o, types.FunctionType) and (o.__module__ or "").startswith("sample.") and ("<locals>" in o.__qualname__ or "<lambda>" in o.__qualname__):
        raise pickle.PicklingError("local function " + o.__qualname__)
      if is_kept(o):
        for i, k in enumerate(kept):
          if k is o:
            return str(i)
        kept.append(o)
        return str(len(kept) - 1)
      return None

  class U(pickle._Unpickler):  # pylint: disable=W0212

    def persistent_load(self, pid):
      return kept[int(pid)]

  b = io.BytesIO()
  P(b, 4).dump(obj)
  return U(io.BytesIO(b.getvalue())).load()


def replicate(ctx, obj, way, what):
  def go():
    if way == "copy":
      return copy.copy(obj)
    if way == "deepcopy":
      return copy.deepcopy(obj)
    if way == "clone":
      return ctx.mod("sklearn.base").clone(obj)
    return pickled(ctx, obj)
  r, exc = ctx.raises(go, RecursionError, AttributeError, TypeError, KeyError, pickle.PicklingError)
  ctx.check(exc is None, f"{what}: {way} is made ({type(exc).__name__ if exc else ''})")
  if exc is not None:
    return None
  ctx.check(r is not obj and type(r) is type(obj), f"{what}: another object of the same type")
  ctx.cover(way)
  return r


def alike(ctx, a, b, msg):
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    ctx.check(len(a) == len(b), msg)
    for x, y in zip(a, b):
      alike(ctx, x, y, msg)
  elif isinstance(a, dict) and isinstance(b, dict):
    ctx.check(list(a) == list(b), msg)
    for k in a:
      if k in b:
        alike(ctx, a[k], b[k], msg)
  elif a is None or isinstance(a, (str, bool)) or b is None or isinstance(b, str):
    ctx.check(type(a) is type(b) and a == b, msg)
  elif isinstance(a, ctx.np.ndarray) or isinstance(b, ctx.np.ndarray):
    ctx.check(ctx.np.shape(a) == ctx.np.shape(b), msg)
    if ctx.np.shape(a) == ctx.np.shape(b):
      alike(ctx, list(a), list(b), msg) if ctx.np.ndim(a) else ctx.eq(a, b, msg, tol=1e-12)
  elif callable(a):
    ctx.check(callable(b), msg)
  elif isinstance(a, complex):
    ctx.eq(a.real, b.real, msg, tol=1e-12)
    ctx.eq(a.imag, b.imag, msg, tol=1e-12)
  else:
    ctx.eq(a, b, msg, tol=1e-12)


def beat(ctx, kind, way):
  bd = ctx.mod("sample.beatsdrop")
  a, f, p = ctx.reals("a", 2, .01, 10), ctx.reals("f", 2, -20, 20), ctx.reals("p", 2, -7, 7)
  ts = ctx.arr(ctx.reals("t", 2, 0, 2), float)
  if kind == "modal":
    d = ctx.reals("d", 2, .1, 10)
    mk = lambda a0: bd.ModalBeat(a0=a0, a1=a[1], f0=f[0], f1=f[1], d0=d[0], d1=d[1], p0=p[0], p1=p[1])
    ctx.cover("decaying")
  elif kind == "callable":
    mk = lambda a0: bd.Beat(a0=Line(a0, a[1]), a1=a[1], f0=f[0], f1=f[1], p0=p[0], p1=p[1])
    ctx.cover("callable")
  else:
    mk = lambda a0: bd.Beat(a0=a0, a1=a[1], f0=f[0], f1=f[1], p0=p[0], p1=p[1])
  ctx.cover("beat")
  b = mk(a[0])
  names = ["a0", "a1", "f0", "f1", "am", "x"] + (["a_hat", "a_oln"] if kind != "callable" else [])
  names = [n for n in names if ctx.raises(lambda n=n: b.compute(ts, n), KeyError)[1] is None]
  c = replicate(ctx, b, way, "beat")
  if c is None:
    return

  def judge(o, want, what):
    alike(ctx, list(o.compute(ts, tuple(names))), list(want.compute(ts, tuple(names))), what)
    for n in ("am", "x"):
      alike(ctx, getattr(o, n)(ts), want.compute(ts, n), what + ": variable by name")
    _, exc = ctx.raises(lambda: o.no_such_variable, AttributeError)
    ctx.check(isinstance(exc, AttributeError), "unknown variables are reported")
  judge(c, b, "copy of a beat")
  again = replicate(ctx, c, way, "copy of a copy")
  if again is not None:
    judge(again, mk(a[0]), "copy of a copy of a beat")
  judge(b, mk(a[0]), "the beat that was copied")


class Line:

  def __init__(self, a, k):
    self.a, self.k = a, k

  def __call__(self, t):
    return self.a + self.k * t

  def dt(self, t):
    return self.k + 0 * t


def fitted(ctx, beats, n, way, change):
  smp = ctx.mod("sample.beatsdrop.sample").SAMPLEBeatsDROP if beats else ctx.mod("sample.sample").SAMPLE
  ctx.cover("beatsdrop" if beats else "sample")
  rows = [ctx.reals("f", n, 1, 20000), ctx.reals("d", n, .01, 100), ctx.reals("a", n, .001, 10)] + ([ctx.reals("p", n, -7, 7)] if beats else [])
  cap = ctx.choice("cap", [None, 1])
  par = dict(max_n_modes=cap, sinusoidal__tracker__h=ctx.int("h", 1, 4096), sinusoidal__t=ctx.real("thr", -120, 0), sinusoidal__w=ctx.np.ones(3), sinusoidal__intermediate__save=True)
  m = smp(**par)
  m.param_matrix_ = ctx.arr(rows, float) if n else ctx.np.zeros((len(rows), 0))
  st = m.sinusoidal.intermediate
  item = ctx.real("item")
  st.append("stft", item)
  ts = ctx.arr([ctx.real("t", 0, 5)], float)

  def view(o):
    s = o.sdt_params_(order="freqs", reverse=False)
    p = o.get_params()
    return dict(sdt=s, y=o.predict(ts, order="freqs"), fs=o.sinusoidal.fs, h=o.sinusoidal.h, t=o.sinusoidal.t, cap=o.max_n_modes, names=sorted(p),
                save=o.sinusoidal.intermediate.save, m=[list(r) for r in o.param_matrix_], items=list(o.sinusoidal.intermediate["stft"]))
  before = view(m)
  c = replicate(ctx, m, way, "model")
  if c is None:
    return
  alike(ctx, view(c), before, "copy of a fitted model")
  if change and way != "copy":  # a shallow copy shares its parts
    ctx.cover("altered")
    if n and way == "deepcopy":
      c.freqs_[0] = ctx.real("nf", 1, 20000)
      c.amps_ = c.amps_ * 2
    c.sinusoidal.tracker.h = 4097
    c.set_params(sinusoidal__t=3., max_n_modes=7)
    c.sinusoidal.intermediate.append("stft", 1.)
    if bool(ctx.bool("reset")):
      c.sinusoidal.intermediate.reset()
    alike(ctx, view(m), before, "the model that was copied, after changing the copy")
    ctx.check(c.sinusoidal.h == 4097 and c.max_n_modes == 7 and c.sinusoidal.t == 3., "the copy takes changes")


def cloned(ctx, beats):
  smp = ctx.mod("sample.beatsdrop.sample").SAMPLEBeatsDROP if beats else ctx.mod("sample.sample").SAMPLE
  m = smp(max_n_modes=ctx.int("cap", 0, 9), sinusoidal__tracker__h=ctx.int("h", 1, 4096))
  m.param_matrix_ = ctx.np.ones((4, 1))
  c = replicate(ctx, m, "clone", "model")
  if c is None:
    return
  ctx.check(c.sinusoidal.h == m.sinusoidal.h and c.max_n_modes == m.max_n_modes, "parameters are kept")
  ctx.check(not hasattr(c, "param_matrix_"), "what was fitted is not")


def regress(ctx, kind, way):
  if kind == "hinge":
    hm = ctx.mod("sample.hinge")
    r = hm.HingeRegression(method="dogbox")
    r.coeffs_ = ctx.arr([ctx.real("ka", 0, 10), ctx.real("kk", -100, 0), ctx.real("kq", -100, 0)], float)
    x = ctx.arr(ctx.reals("x", 2, 0, 20), float)
    view = lambda o: [o.predict(x), o.a_, o.k_, o.q_, o.method]
    ctx.cover("hinge")
  else:
    rm = ctx.mod("sample.beatsdrop.regression")
    bd = ctx.mod("sample.beatsdrop")
    r = getattr(rm, kind)(lpf=ctx.real("lpf", 1, 100), fs=ctx.real("fs", 1, 9999))
    r.params_ = ctx.reals("p", 2, .1, 9) + ctx.reals("q", 2, 1, 99) + ctx.reals("d", 2, .1, 9) + ctx.reals("ph", 2, -3, 3)
    r.params_ = ctx.arr(r.params_, float)
    r.beat_ = bd.ModalBeat(*r.params_)
    t = ctx.arr(ctx.reals("t", 2, 0, 2), float)
    view = lambda o: [o.predict(t, "am", "x"), o.params_, o.lpf, o.fs]
    ctx.cover("regression")
  before = view(r)
  c = replicate(ctx, r, way, "regression")
  if c is None:
    return
  alike(ctx, view(c), before, "copy of a fitted regression")
  if way == "deepcopy":
    (c.coeffs_ if kind == "hinge" else c.params_)[0] = 99.
  c.set_params(**({"method": "trf"} if kind == "hinge" else {"lpf": 5.}))
  alike(ctx, view(r), before, "the regression that was copied")


def frame(ctx, size, tag):
  f, m = ctx.reals(f"{tag}f", size, 1, 10000), ctx.reals(f"{tag}m", size, -80, 0)
  for i in range(size):
    for j in range(i):
      ctx.assume(m[i] != m[j])
  return f, m


def feed(ctx, tr, fm):
  f, m = fm
  tr(ctx.arr(f, float), ctx.arr(m, float), ctx.arr([1. * i for i in range(len(f))], float))


def tracks(tr):
  return [(t["start_frame"], list(t["freq"]), list(t["mag"]), list(t["phase"])) for t in tr.all_tracks_] + [tr.n_active_tracks]


def tracker(ctx, modal, first, second, way):
  cls = ctx.mod("sample.sms.mm").ModalTracker if modal else ctx.mod("sample.sms.sm").SineTracker
  tr = cls(fs=1, h=1, min_sine_dur=1, freq_dev_offset=20)
  tr.reset()
  for i, k in enumerate(first):
    feed(ctx, tr, frame(ctx, k, f"a{i}"))
  before = tracks(tr)
  c = replicate(ctx, tr, way, "tracker")
  if c is None:
    return
  ctx.cover("tracker")
  alike(ctx, tracks(c), before, "copy of a tracker")
  rest = [frame(ctx, k, f"b{i}") for i, k in enumerate(second)]
  for fm in rest:
    feed(ctx, c, fm)
  if way != "copy":
    alike(ctx, tracks(tr), before, "the tracker that was copied, after going on with the copy")
    for fm in rest:
      feed(ctx, tr, fm)
    alike(ctx, tracks(c), tracks(tr), "copy of a tracker going on")


def storage(ctx, n, way):
  le = ctx.mod("sample.utils.learn")
  save = bool(ctx.bool("save"))
  s = le.OptionalStorage(save=save)
  v = ctx.reals("v", n + 2)
  for i in range(n):
    s.append("k", v[i])
  ctx.cover("storage")
  view = lambda o: [o.save, [list(o[k]) for k in o.get_state() or {}], list(o.get_state() or {})]
  before = view(s)
  c = replicate(ctx, s, way, "storage")
  if c is None:
    return
  alike(ctx, view(c), before, "copy of a storage")
  if way != "copy":
    c.append("k", v[n])
    c.append("j", v[n + 1])
    alike(ctx, view(s), before, "the storage that was copied")
    if save:
      ctx.check(len(c["k"]) == n + 1 and len(c["j"]) == 1, "the copy stores")


def filters(ctx, kind, way):
  psy = ctx.mod("sample.psycho")
  n = 1 if kind == "filter" else 2
  f = [ctx.real(f"f{i}", 1, 20000) for i in range(n)]
  b = ctx.real("b", 1, 100)
  given = bool(ctx.bool("named"))
  kw = dict(bandwidth=(lambda flt: b) if not given else b, n=2, t_c=ctx.real("tc", 0, 1), phi=ctx.real("phi", -3, 3), a=ctx.real("a", .1, 2))
  ts = ctx.arr(ctx.reals("t", 1, 0, 1), float)
  if kind == "filter":
    o = psy.GammatoneFilter(f=f[0], **kw)
    view = lambda o: [o.f, o.n, o.bandwidth, o.t_c, o.phi, o.a, o.ir(t=ts)]
    ctx.cover("filter")
  else:
    o = psy.GammatoneFilterbank(freqs=f, **kw)
    view = lambda o: [o.f, o.n, o.bandwidth, o.t_c, o.phi, o.a, len(o), [g.ir(t=ts) for g in o], o[1].f]
    ctx.cover("bank")
  before = view(o)
  c = replicate(ctx, o, way, "filter")
  if c is None:
    return
  alike(ctx, view(c), before, "copy of a filter")
  for x in (o, c):
    _, exc = ctx.raises(lambda: x.no_such_attribute, AttributeError)  # pylint: disable=W0640
    ctx.check(isinstance(exc, AttributeError), "unknown attributes are reported")
    ctx.check(not hasattr(x, "__no_such_method__"), "special methods are not made up")
  ctx.cover("no attribute")
  alike(ctx, view(o), before, "the filter that was copied")


def irs(ctx, analytic, way):
  o = bank(ctx, analytic)
  x = ctx.arr(ctx.reals("x", 3), float)
  view = lambda o: [list(r) for r in o.convolve(x, stride=2)] + [len(o), o.freqs, o.analytic]
  before = view(o)
  c = replicate(ctx, o, way, "impulse responses")
  if c is None:
    return
  ctx.cover("irs")
  alike(ctx, view(c), before, "copy of impulse responses")
  if way == "deepcopy":
    c.irs[0][0] = 99.
    alike(ctx, view(o), before, "the impulse responses that were copied")


def bank(ctx, analytic):
  """a bank of rendered impulse responses"""
  psy = ctx.mod("sample.psycho")
  b = psy.GammatoneFilterbank.PrecomputedIRBank.__new__(psy.GammatoneFilterbank.PrecomputedIRBank)
  c1, c2 = ctx.reals("i", 3), ctx.reals("j", 2)
  b.freqs, b.analytic = (100., 200.), analytic
  b.irs = (ctx.arr(c1, float), ctx.arr(c2, float))
  b.offsets = ctx.arr([0, 2], int)
  b._ir_size = 4  # pylint: disable=W0212
  return b


def loss(ctx, kind, way):
  me = ctx.mod("sample.evaluation.metrics")
  x, y = ctx.arr(ctx.reals("x", 4, -1, 1), float), ctx.arr(ctx.reals("y", 4, -1, 1), float)
  if kind == "cochleagram":
    o = me.CochleagramLoss(fs=200, freqs=(50., 90.), bandwidth=40., n=1, t_c=0., analytic=None, stride=ctx.choice("stride", [1, 2]), p=ctx.choice("p", [1, 2]))
    o.filterbank = bank(ctx, False)
    view = lambda o: [o(x, y), o.p, o.stride, o.method, o.analytic, o.lp_distance(x, y)]
  else:
    def sl(x, y, k):
      return k * abs(x[0] - y[0]) + abs(x[-1] - y[-1])
    o = me.MultiScaleSpectralLoss(spectral_loss=sl, stfts=[dict(k=2), dict(k=3)])
    view = lambda o: [o(x, y), o(y, x)]
  before = view(o)
  c = replicate(ctx, o, way, "loss")
  if c is None:
    return
  ctx.cover("loss")
  alike(ctx, view(c), before, "copy of a loss")
  alike(ctx, view(o), before, "the loss that was copied")


class Compiled:
  """a method of a compiled class: copied, even deeply, it is still of the same object; pickled, it goes with it"""

  def __init__(self, o, name, f):
    self.o, self.name, self.f = o, name, f

  def __call__(self, *a, **k):
    return self.f(*a, **k)

  def __deepcopy__(self, memo):
    return self

  def __reduce__(self):
    return getattr, (self.o, self.name)


ARR = [None]


class Rng:
  """draws that depend on how many were made before"""

  def __init__(self, vals):
    self.vals, self.i = vals, 0

  def __deepcopy__(self, memo):
    r = Rng(self.vals)
    r.i = self.i
    return r

  def __getstate__(self):
    return {"vals": self.vals, "i": self.i}

  def __getattribute__(self, name):
    r = object.__getattribute__(self, name)
    return r if name.startswith("_") or name in ("vals", "i") else Compiled(self, name, r)

  def _next(self, size=None):
    k = 1 if size is None else int(size)
    v = [self.vals[(self.i + j) % len(self.vals)] for j in range(k)]
    self.i += k
    return v[0] if size is None else ARR[0](v, float)

  def beta(self, a, b, size=None):
    return self._next(size)

  def uniform(self, low=0., high=1., size=None):
    return low + (high - low) * self._next(size)

  def random(self, size=None):
    return self._next(size)

  def exponential(self, scale=1., size=None):
    return scale * self._next(size)

  def normal(self, loc=0., scale=1., size=None):
    return loc + scale * self._next(size)


def generator(ctx, way, used):
  r = ctx.mod("sample.evaluation.random")
  vals = [ctx.real(f"u{i}", 0, 1) for i in range(6)]
  ARR[0] = ctx.arr
  mk = lambda: r.BeatsGenerator(rng=Rng(vals))
  g = mk()
  draw = lambda o: [o.beta_twosides(2., 3., left=1., right=4., positive=.25), *o.noise(2), *o.decays(), *o.amps()]
  for _ in range(used):
    draw(g)
  c = replicate(ctx, g, way, "generator")
  if c is None:
    return
  ctx.cover("generator")
  if way == "copy":
    alike(ctx, draw(c), draw_at(mk(), used, draw), "copy of a generator")
    return
  alike(ctx, [draw(c), draw(c)], [draw_at(mk(), used, draw), draw_at(mk(), used + 1, draw)], "a copy of a generator goes on")
  alike(ctx, draw(g), draw_at(mk(), used, draw), "the generator that was copied goes on by itself")


def draw_at(g, n, draw):
  for _ in range(n):
    draw(g)
  return draw(g)


def configs(tier):
  for w in WAYS:
    for k in ("constant", "modal", "callable"):
      yield f"beat {k} {w}", beat, dict(kind=k, way=w)
    for beats in (False, True):
      for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        yield f"model {'beats ' if beats else ''}{n} {w}", fitted, dict(beats=beats, n=n, way=w, change=True)
    for k in ("hinge", "BeatRegression", "DualBeatRegression"):
      yield f"regression {k} {w}", regress, dict(kind=k, way=w)
    for modal in (False, True):
      for first, second in [([1], [1]), ([2], [1])] + ([([2, 1], [1]), ([1], [2, 1])] if tier == "thorough" else []):
        yield f"tracker {'modal ' if modal else ''}{first} {second} {w}", tracker, dict(modal=modal, first=first, second=second, way=w)
    for n in (0, 2):
      yield f"storage {n} {w}", storage, dict(n=n, way=w)
    for k in ("filter", "bank"):
      yield f"{k} {w}", filters, dict(kind=k, way=w)
    yield f"irs {w}", irs, dict(analytic=False, way=w)
    for k in ("multiscale", "cochleagram"):
      yield f"loss {k} {w}", loss, dict(kind=k, way=w)
    for used in (0, 1):
      yield f"generator {used} {w}", generator, dict(way=w, used=used)
  for beats in (False, True):
    yield f"clone {'beats' if beats else ''}", cloned, dict(beats=beats)
