"""C57 the controls of the interface do what they say"""
import types

from checks import faketk

GUI = True
BOUNDS = ("audio of 1..4 samples with every value and sample rate, every position of the pointer and number typed; sequences of 1..6 (8 thorough) user actions on the widgets of the whole interface as its constructors make it; "
          "showing a limit of up to 2**40 samples at every sample rate, with every rounding of the quotient and of the product")
OUTSIDE = "the display (a Tcl interpreter that keeps variables, traces, bindings and options, with the real tkinter on top of it); drawing; the analysis, dialogs, sound and files (stand-ins; see C43, C47)"
ASSUMPTIONS = ["pressing a button runs its command and the scripts bound to it; typing sets the variable of the entry; clicking in a figure runs the handlers connected to its canvas"]
COVERS = {"loaded", "not loaded", "typed", "not a number", "clicked", "pan or zoom", "played", "analysed", "resynthesis played", "exported", "applied", "not applied", "tab changed", "round trip", "specs", "failed", "given up"}


class Axes:
  """accepts whatever is drawn"""

  def __init__(self):
    self.xaxis = self.yaxis = self.label = self
    self.drawn, self.spines = [], {"left": self, "bottom": self}

  def clear(self):
    self.drawn = []

  def plot(self, x, y, *a, **k):
    self.drawn.append((list(x), list(y), k))

  def get_xlim(self):
    return 0, 1

  get_ylim = get_xlim

  def __getattr__(self, k):
    if k.startswith("__"):
      raise AttributeError(k)
    return lambda *a, **kw: None


def world(ctx, n):
  main, al, an = (ctx.mod("sample.widgets." + k) for k in ("main", "audioload", "analysis"))
  us = ctx.mod("sample.widgets.userfiles")
  w = types.SimpleNamespace(plays=[], errors=[], fits=[], wavs=[], asked=[], files={}, cleared=[], n=n, fail=None)
  apps, fake = faketk.install(ctx, Axes)
  import matplotlib.figure
  ctx.patch(matplotlib.figure, "Figure", fake.Figure)
  for k in ("LogoIcon", "LogoImage"):
    ctx.patch(main.images, k, lambda *a, **kw: "image")
  w.xs = ctx.reals("x", n, -1, 1)
  w.sr = ctx.int("sr", 1, 192000)
  mask = ctx.choice("onsets", [[False] * n] + [[j == i for j in range(n)] for i in range(n)])
  ctx.patch(al.dsp, "onset_detection", lambda x_, *a, **k: ctx.arr(list(mask), bool))
  w.first = mask.index(True) if any(mask) else 0
  ctx.patch(al.filedialog, "askopenfilename", lambda *a, **k: "/where/ding.wav")
  ctx.patch(al.wavfile, "read", lambda *a, **k: (w.sr, ctx.arr(w.xs, float)))

  class Temp:
    def __init__(self, x, sr):
      self.a = list(x), sr

    def play(self):
      w.plays.append(self.a)

  ctx.patch(main.audio, "TempAudio", Temp)
  for k in ("showerror", "showinfo", "showwarning"):
    ctx.patch(al.messagebox, k, lambda *a, _k=k, **kw: w.errors.append((_k, a)))

  class Model:
    def __init__(self, kw):
      self.kw = kw
      self.sinusoidal = types.SimpleNamespace(h=2, fs=w.sr, tracker=types.SimpleNamespace(reverse=False),
                                              intermediate=types.SimpleNamespace(get_state=lambda *a, **k: {}))

    def fit(self, x, **k):
      if w.fail:
        raise w.fail("analysis failed")
      w.fits.append((list(x), self))
      return self

    def predict(self, t, **k):
      if not any(m is self for _, m in w.fits):
        raise AttributeError("not fitted")
      self.y = ctx.reals(f"y{len(w.fits)}_", ctx.np.size(t), -1, 1)
      return ctx.arr(self.y, float)

    def sdt_params_(self):
      if not any(m is self for _, m in w.fits):
        raise AttributeError("not fitted")
      return {"model": self.kw}

  ctx.patch(an.sample, "sample_factory", lambda progressbar=None, **kw: (Model(kw), {}))
  ctx.patch(an.plots, "sine_tracking_2d", lambda *a, **k: None)
  ctx.patch(an.filedialog, "asksaveasfilename", lambda *a, **k: w.asked.append(k) or "/there/f" + k.get("defaultextension", ""))

  def write(filename=None, rate=None, data=None):
    w.wavs.append((filename, rate, list(data)))

  ctx.patch(an.wavfile, "write", write)

  class File:
    def __init__(self, name):
      self.name = name

    def __enter__(self):
      return self

    def __exit__(self, *a):
      return False

  ctx.patch(an, "open", lambda f, *a, **k: File(f))
  ctx.patch(an.json, "dump", lambda j, f, **k: w.files.setdefault(f.name, []).append(j))
  w.gui = main.SAMPLEGUI(persistent_dir=us.UserDir(None))
  w.app = apps[-1]
  w.root = w.gui.notebook
  nb, tabs = next(iter(w.app.tabs.items()))
  w.nb = nb
  ctx.check([t for _, t in tabs] == ["Load Audio", "Settings", "Analysis"], "tabs")
  w.tab = {t: p for p, t in tabs}
  w.canvas = {t: v.plt.canvas for (_, t), v in zip(tabs, w.gui.tabs) if hasattr(v, "plt")}
  w.loaded = False
  w.a = w.b = w.model = w.resynth = None
  w.settings = {}
  w.k = 0
  return w


def layout(ctx, w):
  """every control is somewhere, and none is above another one"""
  seen = {}
  for p, k in w.app.kinds.items():
    if not any(p.startswith(t + ".") for t in w.tab.values()) or p in w.app.gone:
      continue
    if any(t in k.lower() for t in ("label", "entry", "button", "progressbar")):
      if "!toolbar" not in p:
        ctx.check(p in w.app.grids, f"{p} is shown")
    g = w.app.grids.get(p)
    if g is None:
      continue
    for r in range(int(g.get("row", 0)), int(g.get("row", 0)) + int(g.get("rowspan", 1))):
      for c in range(int(g.get("column", 0)), int(g.get("column", 0)) + int(g.get("columnspan", 1))):
        key = p.rpartition(".")[0], r, c
        ctx.check(key not in seen, f"{p} and {seen.get(key)} do not overlap")
        seen[key] = p


def again(ctx, w):
  """applying what is shown changes nothing"""
  before = dict(w.root.sample_object_kwargs)
  press(ctx, w, "Apply", "Settings")
  now = w.root.sample_object_kwargs
  ctx.check(set(now) == set(before), "applying what is shown changes nothing")
  for k, v in before.items():
    if isinstance(v, (str, bool, type(None))):
      ctx.check(now.get(k) is v or now.get(k) == v, "applying what is shown changes nothing")
    elif k != "sinusoidal__w":
      ctx.eq(ctx.arr([*v] if isinstance(v, tuple) else [v], float), ctx.arr([*now[k]] if isinstance(v, tuple) else [now[k]], float), "applying what is shown changes nothing", tol=0)


def button(ctx, w, text, tab):
  f = w.app.find(text, "button", w.tab[tab])
  ctx.check(len(f) == 1, f"one button {text} in {tab}")
  return f[0]


def press(ctx, w, text, tab):
  b = button(ctx, w, text, tab)
  _, exc = ctx.raises(lambda: w.app.press(b), Exception)
  ctx.check(exc is None, f"{text} does not raise" if exc is None else f"{text} does not raise {type(exc).__name__}: {exc}")


def field(ctx, w, text, tab):
  f = w.app.find(text, "label", w.tab[tab])
  ctx.check(len(f) == 1, f"one label {text} in {tab}")
  e = w.app.beside(f[0])
  ctx.check(e is not None, f"a control beside {text}")
  return e


def number(ctx, v):
  """what is typed"""
  return str(v)


def shown(ctx, w, msg):
  """the limits of the region are those expected, and the ones shown"""
  r = w.root
  got = (r.audio_trim_start, r.audio_trim_stop)
  ctx.check(ctx.And(got[0] == w.a, got[1] == w.b), msg)
  ctx.check(ctx.And(got[0] >= 0, got[0] < got[1], got[1] <= w.n), "the region is a valid one")


def entries(ctx, w):
  for t, v in ("start", w.a), ("stop", w.b):
    s = w.app.shows(field(ctx, w, t, "Load Audio"))
    ctx.eq(float_of(s) * w.sr, v, f"the {t} of the region is shown", tol=1e-6)
  # the region drawn
  d = w.canvas["Load Audio"].figure.axes[0].drawn
  ctx.check(len(d) == 2, "audio and region are drawn")
  if len(d) == 2:
    ctx.eq(ctx.arr(d[0][1], float), ctx.arr(w.xs, float), "the audio is drawn", tol=0)
    ctx.eq(ctx.arr(d[1][1], float), ctx.arr(w.xs[w.a:w.b], float), "the region is drawn", tol=0)
    for i, v in enumerate(d[1][0]):
      ctx.eq(v * w.sr, w.a + i, "the region is drawn at its place", tol=1e-6)


def load(ctx, w):
  press(ctx, w, "Load", "Load Audio")
  w.loaded = True
  w.a, w.b, w.resynth = w.first, w.n, None
  shown(ctx, w, "loading selects from the onset")
  entries(ctx, w)
  ctx.cover("loaded")


def concrete(ctx, w):
  """which of the valid regions this one is"""
  r = w.root
  for a in range(w.n):
    for b in range(a + 1, w.n + 1):
      if bool(ctx.And(r.audio_trim_start == a, r.audio_trim_stop == b)):
        w.a, w.b = a, b
        return
  ctx.check(False, "the region is a valid one")


def near(ctx, v, got, lo, hi):
  """got is next to v, within limits"""
  f, c = ctx.fn("floor")(v), ctx.fn("ceil")(v)
  ctx.check(ctx.Or(got == f, got == c, ctx.And(f < lo, got == lo), ctx.And(c > hi, got == hi)), "the side asked for")


def typed(ctx, w, start):
  w.k += 1
  v = ctx.real(f"typed{w.k}", -1, 1e3)
  a, b = w.a, w.b
  e = field(ctx, w, "start" if start else "stop", "Load Audio")
  _, exc = ctx.raises(lambda: w.app.type(e, number(ctx, v)), Exception)
  ctx.check(exc is None, "typing does not raise")
  if not w.loaded:
    ctx.check(getattr(w.root, "audio_trim_start", None) is None and getattr(w.root, "audio_trim_stop", None) is None, "nothing to trim")
    ctx.cover("not loaded")
    return
  concrete(ctx, w)
  ctx.check(w.b == b if start else w.a == a, "typing moves one side")
  near(ctx, v * w.sr, w.a if start else w.b, 0 if start else a + 1, b - 1 if start else w.n)
  d = w.canvas["Load Audio"].figure.axes[0].drawn
  ctx.check(len(d) == 2 and len(d[1][1]) == w.b - w.a, "the region is drawn again")
  ctx.cover("typed")


def letters(ctx, w):
  side = ctx.choice(f"side{w.k}", ["start", "stop"])
  text = ctx.choice(f"text{w.k}", ["", "one", "-", "1:0"])
  w.k += 1
  a, b = w.a, w.b
  _, exc = ctx.raises(lambda: w.app.type(field(ctx, w, side, "Load Audio"), text), Exception)
  ctx.check(exc is None, "typing does not raise")
  if w.loaded:
    concrete(ctx, w)
    ctx.check(w.b == b if side == "start" else w.a == a, "typing moves one side")
  ctx.cover("not a number")


def click(ctx, w, on=None):
  w.k += 1
  n = w.k
  v = ctx.real(f"at{n}", -1, 1e3)
  a, b = w.a, w.b
  c = w.canvas["Load Audio"]
  if on:
    w.app.press(button(ctx, w, on, "Load Audio"))
  ev = types.SimpleNamespace(xdata=v, ydata=0., inaxes=object(), button=1)
  _, exc = ctx.raises(lambda: (c.fire("button_press_event", ev), c.fire("button_release_event", ev)), Exception)
  ctx.check(exc is None, "clicking does not raise")
  if on:
    w.app.press(button(ctx, w, on, "Load Audio"))
  if not w.loaded:
    ctx.check(getattr(w.root, "audio_trim_start", None) is None, "nothing to trim")
    ctx.cover("not loaded")
    return
  if on:
    shown(ctx, w, f"{on} does not move the region")
    ctx.cover("pan or zoom")
    return
  concrete(ctx, w)
  ctx.check(w.a == a or w.b == b, "a click moves one side")
  f = ctx.fn("floor")(v * w.sr)
  g = ctx.fn("ceil")(v * w.sr)
  d = lambda x, y: ctx.ite(x >= y, x - y, y - x)
  if bool(ctx.And(d(f, a) < d(f, b), d(g, a) < d(g, b))):
    ctx.check(w.b == b, "the nearer side is moved")
    near(ctx, v * w.sr, w.a, 0, b - 1)
  elif bool(ctx.And(d(f, a) > d(f, b), d(g, a) > d(g, b))):
    ctx.check(w.a == a, "the nearer side is moved")
    near(ctx, v * w.sr, w.b, a + 1, w.n)
  entries(ctx, w)
  ctx.cover("clicked")


def sound(ctx, w, what):
  k, e = len(w.plays), len(w.errors)
  press(ctx, w, what, "Load Audio" if what == "Play" else "Analysis")
  ok = w.loaded and (what != "Play Resynthesis" or w.model is not None)
  ctx.check((len(w.plays) - k, len(w.errors) - e) == ((1, 0) if ok else (0, 0 if what == "Play" else 1)), f"{what}: played once, or refused")
  if ok and len(w.plays) > k:
    x, sr = w.plays[-1]
    ctx.eq(sr, w.sr, "sample rate", tol=0)
    if what == "Play Resynthesis":
      if w.resynth is None:
        w.resynth = w.model.y
      ctx.eq(ctx.arr(x, float), ctx.arr(w.resynth, float), "the resynthesis is played", tol=0)
      ctx.cover("resynthesis played")
    else:
      ctx.eq(ctx.arr(x, float), ctx.arr(w.xs[w.a:w.b], float), "the region is played", tol=0)
      ctx.cover("played")


def analyse(ctx, w):
  k, e = len(w.fits), len(w.errors)
  press(ctx, w, "Analyze", "Analysis")
  ctx.check((len(w.fits) - k, len(w.errors) - e) == ((1, 0) if w.loaded else (0, 1)), "analysed once, or refused")
  if w.loaded and len(w.fits) > k:
    x, w.model = w.fits[-1]
    ctx.eq(ctx.arr(x, float), ctx.arr(w.xs[w.a:w.b], float), "the region is analysed", tol=0)
    ctx.eq(w.model.kw.get("sinusoidal__tracker__fs"), w.sr, "at its sample rate", tol=0)
    for key, v in w.settings.items():
      ctx.eq(w.model.kw.get(key), v, "with the applied settings", tol=0)
    w.resynth = w.model.y
    ctx.cover("analysed")


def failed(ctx, w):
  """an analysis that fails is reported, and is the last one"""
  w.k += 1
  k, e = len(w.fits), len(w.errors)
  w.fail = ctx.choice(f"failure{w.k}", [ValueError, AttributeError, ZeroDivisionError])
  press(ctx, w, "Analyze", "Analysis")
  w.fail = None
  ctx.check((len(w.fits) - k, len(w.errors) - e) == (0, 1), "a failure is reported once")
  if w.loaded:
    w.model = w.resynth = None
    ctx.cover("failed")


def cancel(ctx, w):
  """a side chosen before Pan or Zoom is turned on is given up"""
  w.k += 1
  u, v = ctx.real(f"from{w.k}", 0, 1e3), ctx.real(f"to{w.k}", 0, 1e3)
  on = ctx.choice(f"tool{w.k}", ["Pan", "Zoom"])
  c = w.canvas["Load Audio"]
  ev = lambda t: types.SimpleNamespace(xdata=t, ydata=0., inaxes=object(), button=1)
  c.fire("button_press_event", ev(u))
  w.app.press(button(ctx, w, on, "Load Audio"))
  c.fire("button_release_event", ev(u))
  w.app.press(button(ctx, w, on, "Load Audio"))
  c.fire("button_release_event", ev(v))
  if w.loaded:
    shown(ctx, w, "nothing is moved")
    ctx.cover("given up")


def export(ctx, w, what):
  k = len(w.wavs), sum(map(len, w.files.values()))
  e = len([v for v in w.errors if v[0] == "showerror"])
  press(ctx, w, what, "Analysis")
  ok = w.model is not None
  d = len(w.wavs) - k[0], sum(map(len, w.files.values())) - k[1]
  ctx.check(d == ((ok, 0) if what == "Export WAV" else (0, ok)), f"{what}: written once")
  ctx.check(len([v for v in w.errors if v[0] == "showerror"]) - e == (not ok), "or refused")
  if ok and d == (1, 0):
    f, sr, x = w.wavs[-1]
    if w.resynth is None:
      w.resynth = w.model.y
    ctx.check(f == "/there/f.wav", "file")
    ctx.eq(sr, w.sr, "sample rate", tol=0)
    ctx.eq(ctx.arr(x, float), ctx.arr(w.resynth, float), "the resynthesis is saved", tol=0)
  elif ok and d == (0, 1):
    ctx.check(w.files.get("/there/f.json", [None])[-1] == {"model": w.model.kw}, "parameters of the last analysis")
  if ok:
    ctx.cover("exported")


def setting(ctx, w, apply):
  """type a hop size and a number of modes; toggle the direction"""
  w.k += 1
  h, m = ctx.real(f"hop{w.k}", 1, 5000), ctx.real(f"modes{w.k}", 1, 100)
  w.app.type(field(ctx, w, "hop size", "Settings"), number(ctx, h))
  w.app.type(field(ctx, w, "n modes", "Settings"), number(ctx, m))
  w.app.press(field(ctx, w, "reverse", "Settings"))
  w.app.type(field(ctx, w, "window type", "Settings"), "hann")
  w.reverse = not getattr(w, "reverse", True)
  if not apply:
    ctx.cover("not applied")
    return
  press(ctx, w, "Apply", "Settings")
  fl = ctx.fn("floor")
  w.settings = {"sinusoidal__tracker__h": fl(h), "max_n_modes": fl(m), "sinusoidal__tracker__reverse": w.reverse}
  ctx.eq(float_of(w.app.shows(field(ctx, w, "hop size", "Settings"))), fl(h), "the value in use is shown", tol=0)
  ctx.check(w.app.shows(field(ctx, w, "window type", "Settings")) == "hann", "the value in use is shown")
  for key, v in w.settings.items():
    ctx.eq(w.root.sample_object_kwargs.get(key), v, "settings are applied", tol=0)
  ctx.cover("applied")


def float_of(s):
  return s._sym_float_() if hasattr(s, "_sym_float_") else float(s) if isinstance(s, str) else s


def change(ctx, w):
  """change tab: selected text is not selected any longer"""
  calls = []
  real = w.app.call

  def call(*a):
    b = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
    if len(b) > 2 and tuple(b[1:3]) == ("selection", "clear"):
      calls.append(b[0])
    return real(*a)

  w.app.call = call
  _, exc = ctx.raises(lambda: w.app.event(w.nb, "<<NotebookTabChanged>>"), Exception)
  w.app.call = real
  ctx.check(exc is None, "changing tab does not raise")
  e = [k for k, v in w.app.kinds.items() if v.endswith("entry") and k.startswith(w.tab["Settings"] + ".")]
  ctx.check(e and set(e) <= set(calls), "no text is left selected in the settings")
  if w.loaded:
    shown(ctx, w, "changing tab does not move the region")
  ctx.cover("tab changed")


ACTIONS = {
    "load": load,
    "start": lambda ctx, w: typed(ctx, w, True),
    "stop": lambda ctx, w: typed(ctx, w, False),
    "letters": letters,
    "click": click,
    "pan": lambda ctx, w: click(ctx, w, "Pan"),
    "zoom": lambda ctx, w: click(ctx, w, "Zoom"),
    "play": lambda ctx, w: sound(ctx, w, "Play"),
    "original": lambda ctx, w: sound(ctx, w, "Play Original"),
    "resynthesis": lambda ctx, w: sound(ctx, w, "Play Resynthesis"),
    "analyse": analyse,
    "wav": lambda ctx, w: export(ctx, w, "Export WAV"),
    "json": lambda ctx, w: export(ctx, w, "Export JSON"),
    "apply": lambda ctx, w: setting(ctx, w, True),
    "set": lambda ctx, w: setting(ctx, w, False),
    "tab": change,
    "again": again,
    "fail": failed,
    "cancel": cancel,
}


def session(ctx, n, acts):
  w = world(ctx, n)
  layout(ctx, w)
  for a in acts:
    ACTIONS[a](ctx, w)


def specs(ctx):
  """settings start with their initial values, parsed"""
  w = world(ctx, 1)
  st = ctx.mod("sample.widgets.settings")
  v = ctx.real("v", -100, 100)
  up = ctx.choice("flag", [True, False])
  opt = ctx.choice("option", ["one", "two", None])
  th = ("gui_theme", {"init_value": "", "options": ["", "arc"]})
  tab = st.SettingsTab(w.root, postprocess=(), setting_specs=(
      ("space", {"is_spacer": True, "label": "group"}), ("num", {"label": "a number", "init_value": v, "get_fn": lambda t: 2 * float_of(t)}),
      ("none", {}), ("flag", {"boolean": True, "init_value": up}), ("off", {"boolean": True}), ("opt", {"init_value": opt, "options": ["two", "three", "one"]}),
      ("twice", {"init_value": 3, "set_fn": lambda t: 2 * t, "get_fn": int}), th))
  got = tab.sample_object_kwargs
  ctx.check(set(got) == {"num", "none", "flag", "off", "opt", "twice", "gui_theme"}, "all settings and no spacers")
  ctx.check(got["flag"] is up and got["off"] is False and got["opt"] == (opt or "two") and got["none"] == "", "initial values are in use")
  ctx.eq(got["num"], 2 * v, "initial values are parsed", tol=1e-9)
  ctx.eq(got["twice"], 6, "initial values are set as any other", tol=0)
  ctx.check(len(w.app.find("group", "label")) == 1 and len(w.app.find("a number", "label")) == 1 and len(w.app.find("none", "label")) == 1, "labels")
  w.tab = {"all": str(tab)}
  layout(ctx, w)
  ctx.cover("specs")


def roundtrip(ctx, start):
  """showing a limit in seconds and reading it back, with the rounding errors of floating point"""
  from checks import C30
  s = ctx.int("s", 0 if start else 1, 2**40)
  sr = ctx.int("sr", 1, 2**20)
  fs = [sr]
  if ctx.symbolic:
    d, e = ctx.real("d", -2**-53, 2**-53), ctx.real("e", -2**-53, 2**-53)
    values = [((s / sr) * (1 + d) * (1 + e), s, sr)]
  else:
    # rounding errors of the counterexample are those of some position and sample rate
    s0, sr0 = min(max(int(s), 1), 10**6), int(sr)
    values = [(float(str(i / r)), i, r) for r in [sr0, 44100, 48000, 22050, 8000, *range(1, 200)] for i in range(s0, s0 + 64)]
  for v, i, r in values:
    n = i + 1 if start else i
    t, root = C30.make(ctx, C30.Audio(n), r, i if start else 0, n)
    t.set_trim(v, start=start, samples=False)
    ctx.check((root.audio_trim_start if start else root.audio_trim_stop) == i, "showing a limit of the region does not move it")
  ctx.cover("round trip")


SESSIONS = ["load analyse resynthesis fail resynthesis wav json", "load cancel click", "load start stop click", "start click letters play original resynthesis analyse wav json", "load pan zoom click", "load letters start", "load letters play",
            "load click play", "load stop analyse", "apply load analyse json", "set load analyse apply", "load set apply set analyse resynthesis", "load analyse start resynthesis wav",
            "load original wav analyse wav json", "tab load tab", "load analyse load resynthesis", "again", "apply again load again analyse", "load pan click", "load zoom start analyse"]


def configs(tier):
  th = tier == "thorough"
  for s in (True, False):
    yield f"round trip start={s}", roundtrip, dict(start=s)
  yield "specs", specs, {}
  for n in (1, 2, 3) + ((4,) if th else ()):
    for a in SESSIONS if n == 2 or th else SESSIONS[:10]:
      yield f"{n}: {a}", session, dict(n=n, acts=a.split())
  if th:
    for a in ("load start click stop analyse resynthesis load wav", "set apply load click set analyse apply analyse"):
      yield f"2: {a}", session, dict(n=2, acts=a.split())
