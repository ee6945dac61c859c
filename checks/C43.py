"""C43 analysis, playback and export of the GUI"""
import threading
import types

GUI = True
BOUNDS = ("audio of 1..4 samples with every trim region, sample rate and sample value; every resynthesised value; sequences of 1..3 (4 thorough) actions among analysing (successfully or not), playing, "
          "exporting, loading another file and moving the trim region, in every order")
OUTSIDE = "drawing, dialogs and the tkinter event loop, sound output and file writing (stand-ins that record what they are given); the analysis itself (stand-in model with arbitrary results); real threads (an analysis requested while another one runs is a nested call)"
ASSUMPTIONS = ["the root widget is a plain namespace holding the shared attributes"]
COVERS = {"analysed", "failed fit", "failed settings", "no audio", "not analysed", "busy", "played", "wav", "json", "cancelled", "cannot write",
          "other audio", "moved", "clipped", "frames", "no frames", "reverse", "plain", "beats"}


class Axes:
  """accepts whatever is drawn, refuses images that are not matrices as matplotlib does"""

  def __init__(self, np):
    self.np, self.drawn, self.xaxis, self.yaxis = np, [], self, self
    self.label, self.spines = self, {"left": self, "bottom": self}

  def clear(self):
    self.drawn = []

  def get_xlim(self):
    return 0, 1

  get_ylim = get_xlim

  def imshow(self, x, **k):
    if self.np.ndim(x) != 2:
      raise TypeError(f"Invalid shape {self.np.shape(x)} for image data")
    self.drawn.append(("image", x, k))

  def plot(self, x, y, *a, **k):
    self.drawn.append(("plot", x, y, k.get("label")))

  def __getattr__(self, k):
    if k.startswith("__"):
      raise AttributeError(k)
    return lambda *a, **kw: None


class Fail(Exception):
  pass


def stage(ctx, n, loaded=True, frames=1, reverse=False):
  an = ctx.mod("sample.widgets.analysis")
  w = types.SimpleNamespace(an=an, shown=[], info=[], models=[], plays=[], wavs=[], files={}, tracked=[])
  w.xs = ctx.reals("x", n, -1, 1)
  w.sr = ctx.int("sr", 1, 192000)
  w.root = types.SimpleNamespace(
      audio_x=ctx.arr(w.xs, float) if loaded else None, audio_sr=w.sr if loaded else None,
      audio_trim_start=0 if loaded else None, audio_trim_stop=n if loaded else None,
      filedialog_dir="/", filedialog_file="/where/ding.wav", filedialog_dir_save=None,
      sample_object_kwargs={"some": 1, "other": "two"})

  class Tab(an.AnalysisTab):

    def _nametowidget(self, _):
      return w.root

    def winfo_parent(self):
      return "."

    def __getattr__(self, k):
      if k.startswith("_") and not k.startswith("__"):
        return None
      raise AttributeError(k)

  t = w.t = object.__new__(Tab)
  t.__dict__.update(ax=[Axes(ctx.np) for _ in range(3)], progressbar=object(), _analisis_lock=threading.Lock(), _tmp_audio=None,
                    plt=types.SimpleNamespace(canvas=types.SimpleNamespace(draw=lambda: None)))
  w.fail = None

  class Model:
    """a model that may fail, with arbitrary resynthesis"""

    def __init__(self, i):
      self.i, self.fits, self.predicts = i, [], []
      self.sinusoidal = types.SimpleNamespace(
          h=2, fs=w.sr, tracker=types.SimpleNamespace(reverse=reverse), intermediate=Storage())

    def fit(self, x, **kw):
      self.fits.append((x, kw))
      if w.during is not None:
        w.during()
      if w.fail == "fit":
        raise Fail("no good")
      if frames:
        self.sinusoidal.intermediate.cache_ = {"stft": [(ctx.arr([-3., -4.], float), None) for _ in range(frames)]}
      self.fitted = True
      return self

    def predict(self, tt):
      if not hasattr(self, "fitted"):
        raise AttributeError("freqs_")
      y = ctx.reals(f"y{self.i}_{len(self.predicts)}_", ctx.np.size(tt), -2, 2)
      self.predicts.append((tt, y))
      return ctx.arr(y, float)

    def sdt_params_(self):
      if not hasattr(self, "fitted"):
        raise AttributeError("freqs_")
      return {"nModes": self.i}

  learn = ctx.mod("sample.utils.learn")

  def Storage():
    return learn.OptionalStorage(save=True)

  def factory(progressbar=None, **kw):
    if w.fail == "settings":
      raise Fail("bad settings")
    m = Model(len(w.models))
    m.settings, m.progressbar = kw, progressbar
    w.models.append(m)
    m.fitkw = {"n_jobs": 1, "_fit_args": object()}
    return m, m.fitkw
  w.during = None
  ctx.patch(an, "sample", types.SimpleNamespace(sample_factory=factory))
  ctx.patch(an.plots, "sine_tracking_2d", lambda s, ax=None, **k: w.tracked.append((s, ax)))
  ctx.patch(an.utils, "root_color", lambda *a, **k: {} if "key" in k else None)
  ctx.patch(an, "messagebox", types.SimpleNamespace(showerror=lambda *a, **k: w.shown.append(a), showinfo=lambda *a, **k: w.info.append(a)))
  w.filename = "/there/out.ext"
  w.asked = []

  def ask(**kw):
    w.asked.append(kw)
    return w.filename
  ctx.patch(an, "filedialog", types.SimpleNamespace(asksaveasfilename=ask))
  w.refuse = False

  def write(filename=None, rate=None, data=None):
    if w.refuse:
      raise OSError("read-only")
    w.wavs.append((filename, rate, data))
  ctx.patch(an, "wavfile", types.SimpleNamespace(write=write))

  class File:

    def __init__(self, name):
      self.name = name

    def __enter__(self):
      if w.refuse:
        raise OSError("read-only")
      return self

    def __exit__(self, *a):
      return False
  ctx.patch(an, "open", lambda f, mode="r", **k: File(f))

  def dump(j, f, **k):
    w.files.setdefault(f.name, []).append(j)
  ctx.patch(an, "json", types.SimpleNamespace(dump=dump))

  class Temp:

    def __init__(self, x, sr):
      self.a = x, sr

    def play(self):
      w.plays.append(self.a)
  ctx.patch(an, "audio", types.SimpleNamespace(TempAudio=Temp))
  w.resynth = None  # what is current: (model, prediction number, sample rate)
  w.model = None  # model of the last successful or failed fit
  w.wav_n = 0
  w.play = {o: t.play_cbk(o) for o in (True, False)}
  return w


def same(ctx, a, b, msg):
  ctx.eq(ctx.arr(list(a), float), ctx.arr(list(b), float), msg, tol=0)


def region(w):
  r = w.root
  return w.xs[r.audio_trim_start:r.audio_trim_stop]


def quiet(ctx, w, fn):
  _, exc = ctx.raises(fn, Exception)
  ctx.check(exc is None, f"the callback does not raise ({type(exc).__name__}: {exc})" if exc is not None else "the callback does not raise")
  return exc is None


def analyse(ctx, w, fail=None, busy=False):
  """one click on Analyze"""
  w.fail = fail
  k, s = len(w.models), len(w.shown)
  if busy:
    def during():
      w.during = None
      before = len(w.models), w.root.sample_object
      for _ in range(3):
        w.t.analysis_cbk()
        ctx.check((len(w.models), w.root.sample_object) == before and not w.models[-1].predicts and len(w.shown) == s,
                  "an analysis requested while another one is running is ignored")
      ctx.cover("busy")
    w.during = during
  tracked = len(w.tracked)
  if not quiet(ctx, w, w.t.analysis_cbk):
    return False
  ctx.check(len(w.shown) - s == (fail is not None), "a failure is shown, a success is not")
  ctx.check(not w.t._analisis_lock.locked(), "ready for another analysis")
  if fail == "settings":
    ctx.check(len(w.models) == k, "no model was built")
    w.resynth = None
    ctx.cover("failed settings")
    return True
  ctx.check(len(w.models) == k + 1, "every analysis uses a new model")
  m = w.model = w.models[-1]
  ctx.check(w.root.sample_object is m, "the model is made available")
  ctx.check({a: b for a, b in m.settings.items() if a != "sinusoidal__tracker__fs"} == w.root.sample_object_kwargs, "analysed with the current settings")
  ctx.eq(m.settings.get("sinusoidal__tracker__fs"), w.root.audio_sr, "and the sample rate of the audio", tol=0)
  ctx.check(m.progressbar is w.t.progressbar, "progress is shown")
  ctx.check(len(m.fits) == 1 and m.fits[0][1] == m.fitkw, "fitted once with its arguments")
  same(ctx, m.fits[0][0], region(w), "exactly the trimmed audio is analysed")
  w.resynth = None
  if fail:
    ctx.check(not m.predicts, "a failed analysis is not resynthesised")
    ctx.cover("failed fit")
    return True
  ctx.check(len(w.tracked) > tracked and w.tracked[-1][0] is m, "tracks of the new model are drawn")
  if not current(ctx, w):
    return False
  d = w.t.ax[2].drawn
  ctx.check([c[3] for c in d] == ["original", "resynthesis"], "original and resynthesis are drawn")
  if len(d) == 2:
    same(ctx, d[0][2], region(w), "the analysed audio is drawn")
    same(ctx, d[1][2], w.resynth[0], "the resynthesis is drawn")
    for i, v in enumerate(d[0][1]):
      ctx.eq(v * w.root.audio_sr, i, "time axis of the waveform", tol=1e-9)
  ctx.cover("analysed")
  return True


def current(ctx, w):
  """the resynthesis that has just been asked for"""
  m = w.model
  if w.resynth is None or len(m.predicts) > w.resynth[1]:
    ctx.check(m is not None and len(m.predicts) >= 1, "resynthesised from the last analysis")
    if m is None or not m.predicts:
      return False
    tt, y = m.predicts[-1]
    ctx.check(ctx.np.size(tt) == len(region(w) if w.resynth is None else w.resynth[0]), "as long as the analysed audio")
    for i, v in enumerate(tt):
      ctx.eq(v * w.root.audio_sr, i, "at the instants of the samples", tol=1e-9)
    out = []
    for v in y:
      if bool(v > 1):
        out.append(1)
        ctx.cover("clipped")
      elif bool(v < -1):
        out.append(-1)
      else:
        out.append(v)
    w.resynth = out, len(m.predicts)
    if w.root.audio_resynth_x is not None:
      same(ctx, w.root.audio_resynth_x, out, "limited to -1 and 1")
  return True


def can(w):
  return w.model is not None and hasattr(w.model, "fitted")


def sound(ctx, w, original):
  k, s = len(w.plays), len(w.shown)
  if not quiet(ctx, w, w.play[original]):
    return False
  ok = w.root.audio_x is not None and (original or w.resynth is not None or can(w))
  ctx.check(len(w.plays) - k == ok and len(w.shown) - s == (not ok), "played, or an error is shown")
  if not ok:
    ctx.cover("not analysed" if w.root.audio_x is not None else "no audio")
    return True
  if len(w.plays) == k:
    return False
  x, sr = w.plays[-1]
  ctx.eq(sr, w.root.audio_sr, "played at the sample rate of the audio", tol=0)
  if not original and not current(ctx, w):
    return False
  same(ctx, x, region(w) if original else w.resynth[0], "what is played")
  ctx.cover("played")
  return True


def wav(ctx, w, name="/there/out.ext", refuse=False):
  w.filename, w.refuse = name, refuse
  k, s, a = len(w.wavs), len(w.shown), len(w.asked)
  if not quiet(ctx, w, w.t.wav_export_cbk):
    return False
  ok = w.root.audio_x is not None and (w.resynth is not None or can(w))
  ctx.check((len(w.asked) > a) == ok, "a file name is asked for only when there is something to write")
  ctx.check(len(w.wavs) - k == (ok and bool(name) and not refuse), "written only when chosen")
  ctx.check(len(w.shown) - s == (not ok or bool(name and refuse)), "errors are shown")
  if ok and not current(ctx, w):
    return False
  if len(w.wavs) > k:
    f, r, x = w.wavs[-1]
    ctx.check(f == name, "the file chosen")
    ctx.eq(r, w.root.audio_sr, "at the sample rate of the audio", tol=0)
    same(ctx, x, w.resynth[0], "the resynthesis")
    ctx.check(w.root.filedialog_dir_save == "/there", "the folder is remembered")
    ctx.cover("wav")
  elif ok:
    ctx.cover("cannot write" if refuse else "cancelled")
  return True


def js(ctx, w, name="/there/out.json", refuse=False):
  w.filename, w.refuse = name, refuse
  n, s = sum(map(len, w.files.values())), len(w.shown)
  if not quiet(ctx, w, w.t.export_cbk):
    return False
  ok = can(w)
  wr = sum(map(len, w.files.values())) - n
  ctx.check(wr == (ok and bool(name) and not refuse), "written only when there is an analysis and a file is chosen")
  ctx.check(len(w.shown) - s == (not ok or bool(name and refuse)), "errors are shown")
  if wr:
    ctx.check(w.files[name][-1] == {"nModes": w.model.i}, "parameters of the last analysis")
    ctx.cover("json")
  return True


def load(ctx, w):
  """another file of the same length, at another rate"""
  al = ctx.mod("sample.widgets.audioload")
  root = w.root

  class Load(al.AudioLoadTab):

    def _nametowidget(self, _):
      return root

    def winfo_parent(self):
      return "."

    def update_plot(self, *a, **k):
      pass

    def __getattr__(self, k):
      if k.startswith("_") and not k.startswith("__"):
        return None
      raise AttributeError(k)
  t = object.__new__(Load)
  n = len(w.xs)
  xs = ctx.reals("z", n, -1, 1)
  sr = ctx.int("sr2", 1, 192000)
  ctx.patch(al, "filedialog", types.SimpleNamespace(askopenfilename=lambda **kw: "/where/dong.wav"))
  ctx.patch(al, "messagebox", types.SimpleNamespace(showerror=lambda *a, **k: w.shown.append(a)))
  ctx.patch(al, "wavfile", types.SimpleNamespace(read=lambda f, *a, **kw: (sr, ctx.arr(xs, float))))
  ctx.patch(al.dsp, "onset_detection", lambda x_, *a, **kw: ctx.arr([False] * n, bool))
  if not quiet(ctx, w, t.load_cbk):
    return False
  w.xs, w.resynth = xs, None
  ctx.cover("other audio")
  return True


def move(ctx, w):
  n = len(w.xs)
  w.moves = getattr(w, "moves", 0) + 1
  w.root.audio_trim_start, w.root.audio_trim_stop = ctx.choice(f"trim{w.moves}", [(a, b) for a in range(n) for b in range(a + 1, n + 1)])
  ctx.cover("moved")
  if w.root.audio_x is None:
    w.root.audio_trim_start = w.root.audio_trim_stop = None
  return True


ACTIONS = {
    "analyse": analyse,
    "fail": lambda ctx, w: analyse(ctx, w, "fit"),
    "unset": lambda ctx, w: analyse(ctx, w, "settings"),
    "busy": lambda ctx, w: analyse(ctx, w, busy=True),
    "original": lambda ctx, w: sound(ctx, w, True),
    "resynthesis": lambda ctx, w: sound(ctx, w, False),
    "wav": wav,
    "nowav": lambda ctx, w: wav(ctx, w, ctx.choice("name", ["", ()])),
    "badwav": lambda ctx, w: wav(ctx, w, refuse=True),
    "json": js,
    "nojson": lambda ctx, w: js(ctx, w, ctx.choice("name", ["", ()])),
    "badjson": lambda ctx, w: js(ctx, w, refuse=True),
    "load": load,
    "move": move,
}


def session(ctx, n, acts, frames=1, reverse=False):
  w = stage(ctx, n, True, frames, reverse)
  for a in acts:
    if not ACTIONS[a](ctx, w):
      return
  ctx.cover("frames" if frames else "no frames")
  if reverse:
    ctx.cover("reverse")


def silent(ctx, act):
  """nothing is loaded"""
  w = stage(ctx, 1, False)
  s = len(w.shown)
  fn = {"analyse": w.t.analysis_cbk, "original": w.play[True], "resynthesis": w.play[False], "wav": w.t.wav_export_cbk, "json": w.t.export_cbk}[act]
  if not quiet(ctx, w, fn):
    return
  ctx.check(len(w.shown) == s + 1, "an error is shown")
  ctx.check(not w.models and not w.plays and not w.wavs and not w.files, "and nothing is done")
  ctx.cover("no audio")


def factory(ctx, beats):
  """models built from the settings"""
  sm = ctx.mod("sample.widgets.sample")
  v = ctx.real("v", 1, 1e5)
  strip = ctx.real("strip", .01, 9)
  save = ctx.choice("save", [None, True, False])
  th = ctx.real("th", 0, 1e4)
  kw = {"sinusoidal__tracker__fs": v, "sinusoidal__tracker__strip_t": strip, "no_such_thing": 3, "gui_theme": "arc", "max_n_modes": 4,
        "beat_decisor__th": th}
  if save is not None:
    kw["sinusoidal__intermediate__save"] = save
  jobs = ctx.int("jobs", 0, 8)
  bar = object()
  m, fk = sm.sample_factory(beatsdrop=beats, progressbar=bar, n_jobs=jobs, **kw)
  ctx.check(type(m).__name__ == ("SAMPLEBeatsDROP" if beats else "SAMPLE"), "the kind of model asked for")
  ctx.eq(m.sinusoidal.tracker.fs, v, "nested setting", tol=0)
  ctx.eq(m.sinusoidal.tracker.strip_t, strip, "nested setting", tol=0)
  ctx.check(m.max_n_modes == 4, "setting")
  ctx.check(m.sinusoidal.intermediate.save is (True if save is None else save), "spectra are stored for the plot unless asked otherwise")
  if beats:
    ctx.eq(m.beat_decisor.th, th, "setting of the beat decisor", tol=0)
    ctx.check(m.beat_decisor.intermediate.save is True, "decisions are stored for the plot")
  ctx.check(set(fk) == {"_fit_args", "n_jobs"} and fk["_fit_args"].progressbar is bar, "fit arguments")
  ctx.eq(fk["n_jobs"], jobs, "number of jobs", tol=0)
  ctx.cover("beats" if beats else "plain")


def configs(tier):
  th = tier == "thorough"
  for b in (False, True):
    yield f"factory beats={b}", factory, dict(beats=b)
  for a in ("analyse", "original", "resynthesis", "wav", "json"):
    yield f"nothing loaded, {a}", silent, dict(act=a)
  for fr in (0, 1, 2):
    for r in (False, True):
      yield f"plot frames={fr} reverse={r}", session, dict(n=2, acts=["analyse", "resynthesis"], frames=fr, reverse=r)
  import itertools
  kinds = ["analyse", "fail", "unset", "resynthesis", "wav", "json", "load", "move"]
  ends = {"resynthesis", "wav", "json", "analyse", "fail", "unset"}
  for k in (1, 2, 3, 4) if th else (1, 2, 3):
    for s in itertools.product(kinds, repeat=k):
      if s[-1] not in ends or any(a == b and a != "analyse" for a, b in zip(s, s[1:])):
        continue
      if k >= 3 and not ("analyse" in s[:-1] and s[-1] in ("resynthesis", "wav", "json")):
        continue
      yield "session " + " ".join(s), session, dict(n=2, acts=list(s))
  for s in (["busy", "resynthesis"], ["move", "analyse", "move", "resynthesis"], ["move", "analyse", "move", "wav"], ["busy", "analyse", "resynthesis"], ["analyse", "busy", "wav"], ["analyse", "nowav", "wav"], ["analyse", "badwav", "wav"], ["analyse", "nojson", "json"],
            ["analyse", "badjson", "json"], ["move", "original"], ["original"], ["move", "analyse", "original"], ["nowav"], ["badjson"]):
    yield "session " + " ".join(s), session, dict(n=2, acts=s)
  for n in (1, 3, 4) if th else (1, 3):
    yield f"region n={n}", session, dict(n=n, acts=["move", "analyse", "resynthesis"])
    yield f"region n={n} original", session, dict(n=n, acts=["move", "original"])
