"""C56 sounds are played as given and the interface shares its state"""
import itertools
import threading
import types

GUI = True
BOUNDS = ("every history of up to 5 (6 thorough) creations, plays (once each, as the interface does) and deletions of up to 2 (3) sounds of 1..3 samples, every sample and rate; every history of 3 (4) changes of shared values "
          "through 3 widgets of 2 windows; widget trees of up to 4 (5) widgets; 0..3 responsive rows and columns; every figure size and resolution")
OUTSIDE = "the sound card, pygame and tkinter themselves (stand-ins that record what they are asked); the format of WAV files (stand-in)"
COVERS = {"played", "another played", "deleted", "replaced", "shared", "unset", "loaded", "not loaded", "tree", "responsive", "colour", "no colour", "figure", "mocked"}


class Lock:
  """a lock that tells when it would be waited for forever"""

  def __init__(self):
    self.held = False

  def acquire(self, blocking=True, timeout=-1):
    if self.held and blocking:
      raise RuntimeError("the lock is never released")
    got, self.held = not self.held, True
    return got

  def release(self):
    if not self.held:
      raise RuntimeError("the lock is not held")
    self.held = False

  def locked(self):
    return self.held

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *a):
    self.release()


def sounds(ctx, n, k, m):
  au = ctx.mod("sample.widgets.audio")
  rates = ctx.ints("sr", k, 1000, 96000)
  xs = [ctx.reals(f"x{i}_", n + i, -1, 1) for i in range(k)]
  w = types.SimpleNamespace(files=[], open=None, rate=None, playing=None, log=[])
  error = au.pygame.error

  def write(f, rate, data):
    w.files.append((rate, list(data)))
    f.write(b"FILE%04d" % (len(w.files) - 1))

  class Music:
    loaded = file = None

    def unload(self):
      if not w.open:
        raise error("mixer not initialized")
      self.release()

    def release(self):
      if self.loaded is not None:
        self.file.close()  # as pygame does
      self.loaded = w.playing = self.file = None

    def stop(self):
      w.playing = None

    def load(self, f):
      if not w.open:
        raise error("mixer not initialized")
      if f.closed:
        raise error("Couldn't read first 12 bytes of audio data")
      b = f.read()
      if len(b) != 8 or b[:4] != b"FILE":
        raise error("Couldn't read first 12 bytes of audio data")
      self.release()
      self.loaded, self.file = int(b[4:]), f

    def play(self, *a, **kw):
      ok = not a and not kw or a in ((0,), (0, 0.)) or kw.get("loops") == 0
      ctx.check(ok, "played once, from the start")
      if self.loaded is None:
        raise error("music not loaded")
      w.playing = self.loaded

    def __getattr__(self, a):
      from symx.core import Unsupported
      raise Unsupported("mixer.music." + a)

  class Mixer:
    music = Music()

    def pre_init(self, *a, **kw):
      pass

    def init(self, frequency=44100, size=-16, channels=2, **kw):
      if w.open:  # like pygame: no effect if it is open
        return
      w.open, w.rate, w.channels = True, frequency, channels

    def quit(self):
      self.music.release()
      w.open = None

    def get_init(self):
      return (w.rate, -16, w.channels) if w.open else None

    def __getattr__(self, a):
      from symx.core import Unsupported
      raise Unsupported("mixer." + a)
  mixer = Mixer()
  ctx.patch(au, "mixer", mixer)
  ctx.patch(au, "pygame", types.SimpleNamespace(error=error, init=lambda: None, quit=mixer.quit, mixer=mixer))
  ctx.patch(au, "wavfile", types.SimpleNamespace(write=write))
  locks = []
  for name, v in list(vars(au.TempAudio).items()):
    if type(v) is type(threading.Lock()):
      locks.append(Lock())
      ctx.patch(au.TempAudio, name, locks[-1])
  live, done, plays = {}, set(), 0
  for j in range(m):
    acts = [("make", i) for i in range(k)]
    acts += [(a, i) for i in live for a in ("play", "delete") if a == "delete" or i not in done]
    if not j:
      acts = acts[:1]
    a, i = ctx.choice(f"act{j}", acts)
    if a == "make":
      new = au.TempAudio(ctx.arr(xs[i], float), rates[i])
      if i in live:
        ctx.cover("replaced")
      live[i] = new  # the previous one is deleted
      del new
      done.discard(i)
    elif a == "delete":
      t = live.pop(i)
      _, exc = ctx.raises(t.__del__, Exception)
      ctx.check(exc is None, "a sound can be deleted")
      _, exc = ctx.raises(t.play, Exception)
      ctx.check(exc is None, "playing a closed sound is ignored")
      _, exc = ctx.raises(t.__del__, Exception)
      ctx.check(exc is None, "a sound can be deleted twice")
      del t
      ctx.cover("deleted")
    else:
      _, exc = ctx.raises(live[i].play, Exception)
      ctx.check(exc is None, "the sound can be played" + (f" ({exc})" if exc is not None else ""))
      if exc is not None:
        return
      ctx.check(w.playing is not None and w.open is True, "the sound is playing")
      if w.playing is None:
        return
      rate, data = w.files[w.playing]
      ctx.check(len(data) == len(xs[i]), "all samples are played")
      if len(data) != len(xs[i]):
        return
      ctx.same(ctx.arr(data, float), ctx.arr(xs[i], float), "the sound itself is played")
      ctx.same(rate, rates[i], "at its sample rate")
      ctx.same(w.rate, rates[i], "the sound card is set to its sample rate")
      ctx.check(w.channels == 1, "single channel")
      ctx.cover("another played" if plays else "played")
      plays += 1
      done.add(i)
    ctx.check(not any(v.held for v in locks), "the next sound can be played")


def shared(ctx, m):
  ut = ctx.mod("sample.widgets.utils")
  names = ut.DataOnRootMixin.sample_gui_root_properties
  need = ("filedialog_dir", "filedialog_file", "filedialog_dir_save", "audio_x", "audio_sr", "audio_trim_start", "audio_trim_stop", "sample_object",
          "sample_object_kwargs", "audio_resynth_x", "persistent_dir", "settings_file", "audio_cache_file")
  ctx.check(set(need) <= set(names), "shared values")
  roots = [types.SimpleNamespace(), types.SimpleNamespace()]

  class Widget:
    root = None

    def winfo_parent(self):
      return "." + str(self.root)

    def _nametowidget(self, s):
      return roots[int(s[1:])]

  class A(ut.DataOnRootMixin, Widget):
    pass

  class B(ut.DataOnRootMixin, Widget):
    sample_gui_root_properties = (*names, "mine")

  ws = [A(), B(), A()]
  for v, r in zip(ws, (0, 0, 1)):
    v.root = r
  val = ctx.ints("v", m, 0, 9)
  state = [{}, {}]
  audio = need[3:7]
  few = ctx.choice("names", [audio, need[:3] + need[-3:], need[6:10]])
  for j in range(m):
    i = ctx.choice(f"widget{j}", [0, 1, 2])
    k = ctx.choice(f"name{j}", list(few))
    v = None if ctx.choice(f"clear{j}", [False, True]) else val[j]
    setattr(ws[i], k, v)
    state[ws[i].root][k] = v
  for i, u in enumerate(ws):
    for k in need:
      want, got = state[u.root].get(k), getattr(u, k)
      ctx.check((got is None) == (want is None), "values never set are None")
      if want is None:
        ctx.cover("unset")
      elif got is not None:
        ctx.same(got, want, "the last value set through any widget of the window")
        ctx.cover("shared")
    loaded = all(state[u.root].get(k) is not None for k in audio)
    ctx.check(u.audio_loaded == loaded, "audio is loaded when samples, rate and region are all set")
    ctx.cover("loaded" if loaded else "not loaded")
  ctx.check(ws[1].mine is None, "own shared values")
  ws[1].mine = val[0]
  ctx.check(getattr(roots[0], "mine", None) is val[0], "own shared values are on the window")
  _, exc = ctx.raises(lambda: ws[0].log_root_properties(), Exception)
  ctx.check(exc is None, "values can be logged")


def loaded(ctx):
  """every combination of missing values"""
  ut = ctx.mod("sample.widgets.utils")
  root = types.SimpleNamespace()

  class A(ut.DataOnRootMixin):

    def winfo_parent(self):
      return "."

    def _nametowidget(self, _):
      return root
  a = A()
  have = [bool(b) for b in ctx.bools("set", 4)]
  val = ctx.ints("v", 4, 0, 9)
  for k, h, v in zip(("audio_x", "audio_sr", "audio_trim_start", "audio_trim_stop"), have, val):
    setattr(a, k, v if h else None)
  ctx.check(a.audio_loaded == all(have), "audio is loaded when samples, rate and region are all set, whatever their values")
  ctx.cover("loaded" if all(have) else "not loaded")


def tree(ctx, n):
  ut = ctx.mod("sample.widgets.utils")

  class W:

    def __init__(self):
      self.c = []

    def winfo_children(self):
      return list(self.c)
  ws = [W() for _ in range(n)]
  for i in range(1, n):
    ws[ctx.choice(f"parent{i}", list(range(i)))].c.append(ws[i])
  top = ctx.choice("top", list(range(n)))

  def below(v):
    return [u for c in v.c for u in [c] + below(c)]
  for inc in (None, False, True):
    got = list(ut.widget_children(ws[top], **({} if inc is None else {"include_root": inc})))
    want = below(ws[top]) + ([ws[top]] if inc else [])
    ctx.check(len(got) == len(want) and {id(g) for g in got} == {id(g) for g in want}, "every widget inside, once")
  ctx.cover("tree")


def layout(ctx):
  re = ctx.mod("sample.widgets.responsive")
  log = []

  class Base:

    def grid_rowconfigure(self, i, **k):
      log.append(("row", i, k))

    def grid_columnconfigure(self, i, **k):
      log.append(("col", i, k))

    def grid(self, *a, **k):
      log.append(("grid", a, k))
      return "placed"
  cls = re.responsive(Base)
  w = cls()
  ctx.check(isinstance(w, Base) and isinstance(w, re.ResponsiveMixin), "widget class")
  kinds = [None, 0, 1, 2, 3, (), (1,), (0, 2), range(2), [2, 1]]
  rows, cols = ctx.choice("rows", kinds), ctx.choice("cols", kinds)
  once = ctx.choice("given as", [lambda v: v, iter, set])
  give = lambda v: v if v is None or isinstance(v, int) else once(v)
  kw = {}
  if rows is not None:
    kw["rows"] = give(rows)
  if cols is not None:
    kw["cols"] = give(cols)
  ctx.check(w.responsive(**kw) is w, "the widget is returned")
  num = lambda v: [] if v is None else list(range(v)) if isinstance(v, int) else list(v)
  ctx.check(sorted(log, key=str) == sorted([("row", i, {"weight": 1}) for i in num(rows)] + [("col", i, {"weight": 1}) for i in num(cols)], key=str), "exactly the given rows and columns stretch")
  del log[:]
  r, c = ctx.int("row", 0, 9), ctx.int("column", 0, 9)
  stick = ctx.choice("sticky", [None, "ns"])
  ctx.check(w.grid(row=r, column=c, **({} if stick is None else {"sticky": stick})) == "placed", "placed")
  ctx.check(len(log) == 1 and log[0][1] == (), "placed once")
  k = log[0][2]
  ctx.check(set(k) == {"row", "column", "sticky"}, "arguments of the placement")
  if set(k) == {"row", "column", "sticky"}:
    ctx.same(k["row"], r, "row")
    ctx.same(k["column"], c, "column")
    ctx.check(set(k["sticky"]) == set(stick or "nsew"), "it fills its cell unless asked otherwise")
  import tkinter
  from tkinter import ttk
  for name, base in (("Frame", ttk.Frame), ("Canvas", tkinter.Canvas), ("Label", ttk.Label)):
    f = getattr(re, name)
    ctx.check(issubclass(f, base) and issubclass(f, re.ResponsiveMixin) and getattr(re, name) is f, "responsive widget classes")
  ctx.check(re.NSEW == tkinter.NSEW, "constants are passed through")
  _, exc = ctx.raises(lambda: re.NoSuchWidget, AttributeError)
  ctx.check(exc is not None, "unknown names are refused")
  ctx.cover("responsive")


def colour(ctx):
  ut = ctx.mod("sample.widgets.utils")
  v = ctx.choice("style", ["red", "#010203", "", "nothing like a colour", "SystemButtonFace"])
  asked = []
  ctx.patch(ut, "root_style", lambda w, wname, wattr: asked.append((w, wname, wattr)) or v)
  default, key = ctx.choice("default", [None, "blue"]), ctx.choice("key", [None, "bg"])
  kw = {a: b for a, b in (("default", default), ("key", key)) if b is not None}
  r = ut.root_color("widget", "TFrame", "background", **kw)
  ctx.check(asked == [("widget", "TFrame", "background")], "the style asked for")
  c = v if v in ("red", "#010203") else default
  ctx.check(r == (c if key is None else {} if c is None else {key: c}), "the colour, the default, or nothing")
  ctx.cover("colour" if c else "no colour")


def figure(ctx):
  pp = ctx.mod("sample.widgets.pyplot")
  wd, h = ctx.int("w", 1, 4000), ctx.int("h", 1, 4000)
  dpi = ctx.int("dpi", 10, 400)
  made = []

  class Thing:

    def __init__(self, *a, **k):
      self.a, self.k, self.calls = a, k, []
      made.append(self)

    def __getattr__(self, n):
      if n.startswith("__"):
        raise AttributeError(n)
      return lambda *a, **k: self.calls.append((n, a, k)) or self
  ctx.patch(pp.figure, "Figure", type("Figure", (Thing,), {}))
  ctx.patch(pp.backend_tkagg, "FigureCanvasTkAgg", type("Canvas", (Thing,), {}))
  ctx.patch(pp.backend_tkagg, "NavigationToolbar2Tk", type("Toolbar", (Thing,), {}))
  ctx.patch(pp.utils, "widget_children", lambda *a, **k: [])
  base = pp.PyplotFrame.__mro__[1]
  ctx.patch(base, "__init__", lambda self, *a, **k: None)
  ctx.patch(base, "responsive", lambda self, *a, **k: self)
  f = object.__new__(pp.PyplotFrame)
  kw = {}
  for k, v in (("fig_w", wd), ("fig_h", h), ("fig_dpi", dpi)):
    if ctx.choice(k, [True, False]):
      kw[k] = v
  pp.PyplotFrame.__init__(f, **kw)
  figs = [t for t in made if type(t).__name__ == "Figure"]
  ctx.check(len(figs) == 1 and f.fig is figs[0], "one figure")
  d = kw.get("fig_dpi", 72)
  ctx.same(figs[0].k["dpi"], d, "resolution")
  ctx.eq(figs[0].k["figsize"][0] * d, kw.get("fig_w", 640), "width in pixels", tol=1e-6)
  ctx.eq(figs[0].k["figsize"][1] * d, kw.get("fig_h", 360), "height in pixels", tol=1e-6)
  cv = [t for t in made if type(t).__name__ == "Canvas"]
  tb = [t for t in made if type(t).__name__ == "Toolbar"]
  ctx.check(len(cv) == len(tb) == 1 and cv[0].a[0] is f.fig and tb[0].a[0] is cv[0] and f.canvas is cv[0] and f.toolbar is tb[0], "the figure is on the canvas and the toolbar acts on it")
  ctx.cover("figure")


def mocked(ctx, names, fail):
  pp = ctx.mod("sample.widgets.pyplot")
  tk = pp.tk
  before = {n: getattr(tk.tk, n) for n in ("Button", "Frame", "Label")}

  class Stop(Exception):
    pass

  def go():
    with pp.mock_tk2ttk(*names):
      for n in before:
        ctx.check((getattr(tk.tk, n) is before[n]) == (n not in names), "exactly the given classes are replaced")
      if fail:
        raise Stop
  _, exc = ctx.raises(go, Stop)
  ctx.check((exc is not None) == fail, "exceptions pass")
  ctx.check(all(getattr(tk.tk, n) is v for n, v in before.items()), "the classes are restored")
  ctx.cover("mocked")


def configs(tier):
  th = tier == "thorough"
  for n in (1, 2) if not th else (1, 2, 3):
    yield f"one sound of {n}", sounds, dict(n=n, k=1, m=5 if n == 1 else 4)
  yield "two sounds", sounds, dict(n=1, k=2, m=5)
  if th:
    yield "two sounds, long", sounds, dict(n=2, k=2, m=6)
    yield "three sounds", sounds, dict(n=1, k=3, m=5)
  for m in (1, 2, 3) if th else (1, 2):
    yield f"shared {m}", shared, dict(m=m)
  yield "loaded", loaded, {}
  for n in range(1, 6 if th else 5):
    yield f"tree {n}", tree, dict(n=n)
  yield "layout", layout, {}
  yield "colour", colour, {}
  yield "figure", figure, {}
  for names in ([], ["Button"], ["Button", "Label"], ["Frame", "Label", "Button"]):
    for fail in (False, True):
      yield f"mocked {names} {fail}", mocked, dict(names=names, fail=fail)
