"""C30 GUI trim region"""
import types

GUI = True
BOUNDS = "one inductive step from every valid trim region: unbounded integer length, trim limits and sample rate, every real (seconds) or integer (samples) value; automatic trim on every onset mask of 1..6 samples (8 thorough); press and release of every position (or outside of the axes) in eleven (eighteen) sequences of 1..4 (6) events"
OUTSIDE = "audio files with no samples; drawing (update_plot) and the tkinter event loop; floating-point rounding of seconds to samples; the onset detector (replaced by every possible mask, see C27)"
ASSUMPTIONS = ["the root widget is a plain namespace holding the shared attributes"]
COVERS = {"start", "stop", "valid value", "out of range", "nearer start", "nearer stop", "toolbar", "outside", "no onsets", "one onset", "entry start", "entry stop", "not loaded"}


class Audio:
  """an audio signal of any length (only its size is asked for)"""
  ndim = 1
  T = property(lambda self: self)

  def __init__(self, n):
    self.size = n
    self.shape = (n,)


def make(ctx, x, sr, start, stop):
  al = ctx.mod("sample.widgets.audioload")
  root = types.SimpleNamespace(audio_x=x, audio_sr=sr, audio_trim_start=start, audio_trim_stop=stop,
                               audio_cache_file=None, filedialog_dir="/", filedialog_file=None, filedialog_dir_save=None)

  class Tab(al.AudioLoadTab):
    on = False
    toolbar_on = property(lambda self: self.on)

    def _nametowidget(self, _):
      return root

    def winfo_parent(self):
      return "."

    def update_plot(self, *a, **k):
      pass

    def __getattr__(self, k):
      if k.startswith("_") and not k.startswith("__"):
        return None
      raise AttributeError(k)

  t = object.__new__(Tab)
  return t, root


def state(ctx):
  n = ctx.int("n", 1)
  sr = ctx.int("sr", 1)
  a = ctx.int("start", 0)
  b = ctx.int("stop", 1)
  ctx.assume(ctx.And(a < b, b <= n))
  return n, sr, a, b


def valid(ctx, root, n):
  ctx.check(ctx.And(root.audio_trim_start >= 0, root.audio_trim_start < root.audio_trim_stop, root.audio_trim_stop <= n),
            "the trim region is a non-empty slice of the audio")


def sides(ctx, root, n, a, b, is_start, lo, hi, what):
  """the changed side is the requested value (between lo and hi samples) where that is valid; the other one stays"""
  valid(ctx, root, n)
  if is_start:
    got, ok = root.audio_trim_start, ctx.And(lo >= 0, hi < b)
    ctx.check(root.audio_trim_stop == b, what + ": setting the start leaves the stop")
    far = ctx.Or(ctx.And(hi < 0, got != 0), ctx.And(lo >= b, got != b - 1))
  else:
    got, ok = root.audio_trim_stop, ctx.And(lo > a, hi <= n)
    ctx.check(root.audio_trim_start == a, what + ": setting the stop leaves the start")
    far = ctx.Or(ctx.And(hi <= a, got != a + 1), ctx.And(lo > n, got != n))
  ctx.implies(ok, ctx.And(got >= lo, got <= hi), what + ": a valid value is used as is")
  ctx.check(ctx.Not(far), what + ": an invalid value gives the closest valid one")
  ctx.cover("valid value" if bool(ok) else "out of range")


def near(ctx, v):
  """samples next to a position"""
  f = ctx.fn("floor")(v)
  return f, ctx.fn("ceil")(v)


def step(ctx, start, samples, update):
  n, sr, a, b = state(ctx)
  t, root = make(ctx, Audio(n), sr, a, b)
  if samples:
    v = ctx.int("value")
    lo = hi = v
  else:
    v = ctx.real("value")
    lo, hi = near(ctx, v * sr)
  t.set_trim(v, start=start, samples=samples, update=update, update_vars=update)
  sides(ctx, root, n, a, b, start, lo, hi, "set")
  ctx.check(ctx.And(root.audio_x.size == n, root.audio_sr == sr), "the audio is not changed")
  ctx.cover("start" if start else "stop")


def unloaded(ctx, missing):
  n, sr, a, b = state(ctx)
  d = {"x": Audio(n), "sr": sr, "start": a, "stop": b}
  d[missing] = None
  t, root = make(ctx, *d.values())
  before = vars(root).copy()
  ev = types.SimpleNamespace(xdata=ctx.real("xdata"))
  t.set_trim(ctx.int("value"))
  t.manual_trim_cbk_press(ev)
  t.manual_trim_cbk_release(ev)
  ctx.check(all(vars(root)[k] is before[k] for k in before), "nothing happens when no audio is loaded")
  ctx.cover("not loaded")


def clicks(ctx, events):
  """events: string of p (press) r (release) P R (outside of the axes) T (toolbar on press) t (toolbar on release)"""
  n, sr, a, b = state(ctx)
  t, root = make(ctx, Audio(n), sr, a, b)
  side = None
  for i, e in enumerate(events):
    v = None if e in "PR" else ctx.real(f"x{i}")
    ev = types.SimpleNamespace(xdata=v, ydata=v and 0, inaxes=None if v is None else object(), button=1)
    t.on = e in "Tt"
    a, b = root.audio_trim_start, root.audio_trim_stop
    f = t.manual_trim_cbk_press if e in "pPT" else t.manual_trim_cbk_release
    _, exc = ctx.raises(lambda: f(ev), TypeError, AttributeError)
    ctx.check(exc is None, f"press or release handled ({e})")
    if e in "pP":
      if side is None and v is not None:
        lo, hi = near(ctx, v * sr)
        # nearer for both neighbouring samples; otherwise either side will do
        ns = ctx.And(*[dist(ctx, x, a) < dist(ctx, x, b) for x in (lo, hi)])
        np_ = ctx.And(*[dist(ctx, x, a) > dist(ctx, x, b) for x in (lo, hi)])
        side = (ns, np_)
      ctx.check(ctx.And(root.audio_trim_start == a, root.audio_trim_stop == b), "a press changes nothing")
    elif e == "r" and side is not None:
      lo, hi = near(ctx, v * sr)
      if bool(side[0]):
        sides(ctx, root, n, a, b, True, lo, hi, "click nearer to the start")
        ctx.cover("nearer start")
      elif bool(side[1]):
        sides(ctx, root, n, a, b, False, lo, hi, "click nearer to the stop")
        ctx.cover("nearer stop")
      else:
        moved = ctx.And(root.audio_trim_start != a, root.audio_trim_stop != b)
        ctx.check(ctx.Not(moved), "a click moves one side only")
        valid(ctx, root, n)
      side = None
    else:
      ctx.check(ctx.And(root.audio_trim_start == a, root.audio_trim_stop == b), "nothing changes" + (" outside of the axes" if e == "R" else ""))
      side = None
      ctx.cover("toolbar" if e in "Tt" else "outside")


def dist(ctx, x, y):
  return ctx.ite(x >= y, x - y, y - x)


def auto(ctx, n, prev):
  al = ctx.mod("sample.widgets.audioload")
  m = ctx.bools("m", n)
  x = ctx.arr(ctx.reals("x", n, -1, 1), float)
  ctx.patch(al.dsp, "onset_detection", lambda x_, *a, **k: ctx.arr(list(m), bool))
  t, root = make(ctx, x, ctx.int("sr", 1), 0 if prev else None, 1 if prev else None)
  t.auto_trim()
  on = [i for i in range(n) if bool(m[i])]
  ends = on + [n]
  a, b = root.audio_trim_start, root.audio_trim_stop
  valid(ctx, root, n)
  if on:
    best = max(j - i for i, j in zip(ends, ends[1:]))
    ctx.check(ctx.Or(*[ctx.And(a == i, b == j) for i, j in zip(ends, ends[1:])]), "the region goes from an onset to the next one")
    ctx.check(b - a == best, "the longest region is selected")
    if len(on) == 1:
      ctx.cover("one onset")
  else:
    ctx.check(ctx.And(a == 0, b == n), "without onsets the whole audio is selected")
    ctx.cover("no onsets")
  ctx.check(root.audio_x is x, "the audio is not changed")


class Text:
  """what is typed in an entry, as a number"""

  def __init__(self, v):
    self._sym_float_ = lambda: v


def entry(ctx, start):
  """type a number of seconds in a trim entry"""
  al = ctx.mod("sample.widgets.audioload")
  n, sr, a, b = state(ctx)
  t, root = make(ctx, None, None, None, None)

  class Any:
    def __init__(self, *args, **kw):
      self._cb = []
      self._v = ""

    def __getattr__(self, k):
      if k.startswith("__"):
        raise AttributeError(k)
      return Any()

    def __call__(self, *args, **kw):
      return Any()

    def __getitem__(self, k):
      return Any()

    def set(self, v):
      self._v = v
      for c in self._cb:
        c("", "", "write")

    def get(self):
      return self._v

    def trace_add(self, mode, cb):
      self._cb.append(cb)

  class Tk:
    def __getattr__(self, k):
      return Any
  ctx.patch(al, "tk", Tk())
  ctx.patch(al, "pyplot", types.SimpleNamespace(PyplotFrame=Any))
  ctx.patch(al, "_backend_tk", Any())
  base = next(c for c in al.AudioLoadTab.__mro__ if c.__module__ == "tkinter.ttk" or c.__module__ == "tkinter")
  ctx.patch(base, "__init__", lambda *args, **kw: None)
  ctx.patch(base, "grid", lambda *args, **kw: None)
  for c in al.AudioLoadTab.__mro__:
    if "responsive" in c.__dict__:
      ctx.patch(c, "responsive", lambda *args, **kw: None)
  ctx.patch(al.utils, "root_color", lambda *args, **kw: None)
  root.audio_cache_file = types.SimpleNamespace(is_valid=lambda: False, exists=lambda: False, path="")
  type(t).__init__(t, None)
  root.audio_x, root.audio_sr, root.audio_trim_start, root.audio_trim_stop = Audio(n), sr, a, b
  v = ctx.real("value")
  var = t.trim_start_input_var if start else t.trim_stop_input_var
  var.set(Text(v) if ctx.symbolic else repr(v))
  lo, hi = near(ctx, v * sr)
  sides(ctx, root, n, a, b, start, lo, hi, "entry")
  # anything that is not a number leaves a valid region and the other side
  var.set(ctx.choice("text", ["", "a", "1:0", "-"]))
  valid(ctx, root, n)
  ctx.check(root.audio_trim_stop == b if start else root.audio_trim_start == a, "entry: the other side stays")
  ctx.cover("entry start" if start else "entry stop")


def configs(tier):
  th = tier == "thorough"
  for start in (True, False):
    for samples in (True, False):
      for update in (False, True):
        yield f"set start={start} samples={samples} update={update}", step, dict(start=start, samples=samples, update=update)
    yield f"entry start={start}", entry, dict(start=start)
  for m in ("x", "sr", "start", "stop"):
    yield f"no {m}", unloaded, dict(missing=m)
  ev = ["pr", "pR", "pPr", "r", "Tr", "pt", "pTr", "Pr", "pRpr", "ptpr", "ppTr"]
  if th:
    ev += ["prpr", "ppr", "Tprr", "pRpR", "pTpr", "prptpr", "ptTr"]
  for e in ev:
    yield "events " + e, clicks, dict(events=e)
  for n in range(1, 9 if th else 7):
    yield f"auto n={n}", auto, dict(n=n, prev=bool(n % 2))
