"""C32 GUI settings always parse to usable values"""
import inspect
import types

GUI = True
BOUNDS = "every numeric setting (and each group of settings that are post-processed together), typed text being anything: not a number, nan, +-infinity or any real up to 10^6 in absolute value; applied, applied again, saved and loaded again from the file; parsers and post-processing also for arbitrary arguments (any integer window and FFT size)"
OUTSIDE = "drawing and the tkinter event loop; window functions (stand-in: raises for sizes below 1 and for unknown types); texts of numbers above 10^6"
ASSUMPTIONS = ["text is abstracted to what float() makes of it", "the root widget is a plain namespace; widgets are stand-ins holding their variables"]
COVERS = {"number", "not a number", "nan", "infinite", "as is", "clipped", "swapped bounds", "equal bounds", "window clipped", "not parallel", "from file", "unknown window", "theme"}
MAX = 10**6


class Text(str):
  """typed text: what float() makes of it"""

  def _sym_float_(self):
    if isinstance(self.v, Exception):
      raise ValueError("could not convert string to float")
    return self.v

  def lower(self):
    return "?"


def text(ctx, name, lo=-MAX, hi=MAX):
  """(what is in the entry, its number or None)"""
  kind = ctx.choice(name + "_kind", ["number", "word", "empty", "nan", "inf", "-inf"])
  if kind == "number":
    v = ctx.real(name, lo, hi)
    ctx.cover("number")
    return wrap(ctx, v), v
  ctx.cover({"word": "not a number", "empty": "not a number", "nan": "nan"}.get(kind, "infinite"))
  return {"word": "abc", "empty": ""}.get(kind, kind), None


def wrap(ctx, v):
  if not ctx.symbolic or isinstance(v, (str, bool)) or v is None:
    return v if isinstance(v, (str, bool)) else str(v)
  t = Text("<text>")
  t.v = v
  return t


# ------------------------------------------------------------------ parsers
def pos_int(ctx, dflt):
  st = ctx.mod("sample.widgets.settings")
  s, v = text(ctx, "t")
  r, exc = ctx.raises(lambda: st.custom_positive_int(s, **({} if dflt == "no" else {"dflt": dflt})), ValueError, OverflowError, TypeError)
  ctx.check(exc is None, "no exception for any text")
  if exc is not None:
    return
  d = 1 if dflt == "no" else dflt
  if v is None:
    ctx.check(r is d or (not isinstance(r, (type(None), str)) and r is not None and bool(r == d)) or r == 1, "default for anything that is not a (finite) number")
  else:
    f = ctx.fn("floor")(v)
    ctx.check(ctx.And(r >= 1, ctx.Or(ctx.And(v >= 1, r == f), ctx.And(v < 1, r == 1))), "positive integer")


def pow2(ctx):
  st = ctx.mod("sample.widgets.settings")
  s, v = text(ctx, "t")
  r, exc = ctx.raises(lambda: st.next_power_of_2(s), ValueError, OverflowError, TypeError)
  ctx.check(exc is None, "no exception for any text")
  if exc is not None:
    return
  r = int(r)
  ctx.check(r >= 1 and (r & (r - 1)) == 0, "a power of two")
  if v is not None:
    f = ctx.fn("floor")(v)
    ctx.check(r >= f, "not smaller than the integer typed")
    ctx.check(ctx.Or(r == 1, r < 2 * f), "the smallest one")
    ctx.cover("as is")


def clip(ctx, left, right):
  st = ctx.mod("sample.widgets.settings")
  a = ctx.real("left", -MAX, MAX) if left else None
  b = ctx.real("right", -MAX, MAX) if right else None
  if left and right:
    ctx.assume(a <= b)
  d = ctx.real("default", -MAX, MAX) if ctx.choice("has_default", [True, False]) else None
  if d is not None:
    ctx.assume(ctx.And(True if a is None else a <= d, True if b is None else d <= b))
  s, v = text(ctx, "t")
  r, exc = ctx.raises(lambda: st.float_clip(left=a, right=b, default=d)(s), ValueError, OverflowError, TypeError)
  ctx.check(exc is None, "no exception for any text")
  if exc is not None:
    return
  if v is None and not (left or right):
    if d is not None and s in ("abc", ""):
      ctx.eq(r, d, "default")
    return
  if a is not None:
    ctx.check(r >= a, "not below the lower limit")
  if b is not None:
    ctx.check(r <= b, "not above the upper limit")
  if v is None:
    if d is not None and s in ("abc", ""):
      ctx.eq(r, d, "default")
    return
  inside = ctx.And(True if a is None else v >= a, True if b is None else v <= b)
  ctx.implies(inside, r == v, "a value within the limits is used as is")
  if a is not None:
    ctx.implies(v < a, r == a, "clipped to the lower limit")
  if b is not None:
    ctx.implies(v > b, r == b, "clipped to the upper limit")
  ctx.cover("as is" if bool(inside) else "clipped")


def strip(ctx):
  st = ctx.mod("sample.widgets.settings")
  s, v = text(ctx, "t")
  r, exc = ctx.raises(lambda: st.strip_time_parse(s), ValueError, OverflowError, TypeError)
  ctx.check(exc is None, "no exception for any text")
  if exc is None:
    strip_ok(ctx, r, v)


def strip_ok(ctx, r, v):
  if v is None:
    ctx.check(r is None, "do not strip unless a (finite) number is given")
  elif bool(v > 0):
    ctx.check(r is not None and r == v, "positive strip time")
  else:
    ctx.check(r is None, "do not strip for zero or negative times")


def boolean(ctx):
  st = ctx.mod("sample.widgets.settings")
  s, v = text(ctx, "t")
  r, exc = ctx.raises(lambda: st.custom_bool(s), ValueError, OverflowError, TypeError)
  ctx.check(exc is None, "no exception for any text")
  if exc is None:
    want = (v != 0) if v is not None else (s != "")
    ctx.check(ctx.Or(ctx.And(r, want), ctx.Not(ctx.Or(r, want))), "false for zero and the empty text")
    for t, w in (("false", False), ("False", False), ("f", False), ("true", True), ("True", True), ("t", True), ("0.0", False), ("1", True)):
      ctx.check(bool(st.custom_bool(t)) == w, "boolean " + t)


# ---------------------------------------------------------- post-processing
KNOWN = ("blackman", "hann")


class Win:
  def __init__(self, n, t):
    self.size, self.type = n, t
    self.shape = (n,)


def windows_stub(ctx, st):
  calls = []

  def get_window(window, Nx, fftbins=True):
    calls.append(Nx)
    if len(calls) > 8:
      raise RuntimeError("too many attempts")
    if window not in KNOWN:
      raise ValueError("Unknown window type.")
    if Nx < 1:
      raise ValueError("Window length M must be a non-negative integer")
    return Win(Nx, window)
  if "signal" in vars(st):
    ctx.patch(st, "signal", types.SimpleNamespace(get_window=get_window))
  if "get_window" in vars(st):
    ctx.patch(st, "get_window", get_window)
  return calls


def windows(ctx):
  st = ctx.mod("sample.widgets.settings")
  calls = windows_stub(ctx, st)
  n = ctx.int("n", 1)
  ws = ctx.int("wsize")
  wt = ctx.choice("wtype", ["blackman", "hann", "nonsense"])
  r, exc = ctx.raises(lambda: st.postprocess_windows(sinusoidal__n=n, wsize=ws, wtype=wt), ValueError, RuntimeError, TypeError)
  ctx.check(exc is None, "every window size and type gives a window")
  if exc is not None:
    return
  i, o = r
  w = o["sinusoidal__w"]
  ctx.check(set(i) == {"sinusoidal__n", "wsize", "wtype"} and set(o) == {"sinusoidal__n", "sinusoidal__w"}, "settings and parameters")
  ctx.eq(o["sinusoidal__n"], n, "FFT size", tol=0)
  ctx.eq(i["sinusoidal__n"], n, "FFT size reported back", tol=0)
  ctx.check(w.size <= n, "the window is not longer than the FFT")
  ctx.check(w.size >= 1, "the window is not empty")
  ctx.eq(i["wsize"], w.size, "window size reported back", tol=0)
  ctx.check(i["wtype"] == w.type, "window type reported back")
  ok = ctx.And(ws >= 1, ws <= n)
  ctx.implies(ok, w.size == ws, "a valid window size is used as is")
  if bool(ws > n):
    ctx.check(w.size == n, "longer windows are as long as the FFT")
    ctx.cover("window clipped")
  if wt in KNOWN:
    ctx.check(w.type == wt, "a valid window type is used as is")
  else:
    ctx.cover("unknown window")
  del calls[:]
  i2, o2 = st.postprocess_windows(**i)
  ctx.check(i2["wtype"] == i["wtype"] and o2["sinusoidal__w"].type == w.type, "applying again changes nothing")
  ctx.eq([i2["wsize"], i2["sinusoidal__n"], o2["sinusoidal__w"].size], [i["wsize"], n, w.size], "applying again changes nothing", tol=0)


def bounds(ctx):
  st = ctx.mod("sample.widgets.settings")
  a, b = ctx.real("a"), ctx.real("b")
  i, o = st.postprocess_fbound(smfb_0=a, smfb_1=b)
  bounds_ok(ctx, a, b, i, o)
  i2, o2 = st.postprocess_fbound(**i)
  k = "sinusoidal__tracker__frequency_bounds"
  ctx.eq(list(o2[k]) + [i2["smfb_0"], i2["smfb_1"]], list(o[k]) + [i["smfb_0"], i["smfb_1"]], "applying again changes nothing", tol=0)


def bounds_ok(ctx, a, b, i, o):
  f = o["sinusoidal__tracker__frequency_bounds"]
  ctx.check(len(f) == 2, "two bounds")
  ctx.check(f[0] < f[1], "ordered bounds")
  ctx.eq([i["smfb_0"], i["smfb_1"]], list(f), "bounds reported back", tol=0)
  if bool(a < b):
    ctx.eq(list(f), [a, b], "valid bounds are used as they are", tol=0)
  elif bool(a > b):
    ctx.eq(list(f), [b, a], "reversed bounds are swapped", tol=0)
    ctx.cover("swapped bounds")
  else:
    ctx.cover("equal bounds")


def jobs(ctx):
  st = ctx.mod("sample.widgets.settings")
  p = ctx.bool("parallel")
  n = ctx.int("n", 1)
  i, o = st.postprocess_multiprocessing(parallel=p, n_jobs=n)
  ctx.check(set(o) == {"n_jobs"}, "only the number of jobs is a parameter")
  if bool(p):
    ctx.eq(o["n_jobs"], n, "jobs", tol=0)
  else:
    ctx.check(o["n_jobs"] == 0, "zero jobs when not parallel")
    ctx.cover("not parallel")
  ctx.check(bool(i["parallel"]) == bool(p), "reported back")
  ctx.eq(i["n_jobs"], n, "the number typed is kept for when it is parallel again", tol=0)


# ---------------------------------------------------------------- whole tab
class File:
  def __init__(self, d=None, valid=True):
    self.d, self.v, self.saves = d, valid, 0
    self.path = "settings"

  def is_valid(self):
    return self.v

  def exists(self):
    return self.d is not None

  def load_json(self, **kw):
    return dict(self.d)

  def save_json(self, d, **kw):
    self.d = {k: (v if not isinstance(v, tuple) else list(v)) for k, v in d.items()}
    self.saves += 1


def build(ctx, st, file):
  """a settings tab on stand-in widgets; returns it, its root and its variables by setting name"""
  made = []

  class Any:
    def __init__(self, *args, **kw):
      pass

    def __getattr__(self, k):
      if k.startswith("__"):
        raise AttributeError(k)
      return Any()

    def __call__(self, *args, **kw):
      return Any()

  class Var:
    def __init__(self, parent=None, value=None, **kw):
      self.v = False if self.boolean else ""
      made.append(self)
      if value is not None:
        self.set(value)

    def set(self, v):
      self.v = v if self.boolean else wrap(ctx, v)

    def get(self):
      return self.v

  class Tk:
    BooleanVar = type("BooleanVar", (Var,), {"boolean": True})
    StringVar = type("StringVar", (Var,), {"boolean": False})

    @staticmethod
    def OptionMenu(parent, var, default=None, *options, **kw):
      if default is not None:
        var.set(default)
      return Any()

    def __getattr__(self, k):
      return Any
  root = types.SimpleNamespace(settings_file=file, audio_cache_file=File(valid=False), sample_object_kwargs=None,
                               audio_x=None, audio_sr=None, audio_trim_start=None, audio_trim_stop=None,
                               master=types.SimpleNamespace(should_reload=False), quit=lambda: None)
  ctx.patch(st, "tk", Tk())
  if "_backend_tk" in vars(st):
    ctx.patch(st, "_backend_tk", Any())
  ctx.patch(st.utils, "ScrollableFrame", Any)
  box = types.SimpleNamespace(askyesno=lambda *a, **k: False, showwarning=lambda *a, **k: None)
  ctx.patch(st, "messagebox", box)
  uf = ctx.mod("sample.widgets.userfiles")
  ctx.patch(uf, "tkinter", types.SimpleNamespace(messagebox=box))
  base = next(c for c in st.SettingsTab.__mro__ if c.__module__ in ("tkinter.ttk", "tkinter"))
  ctx.patch(base, "__init__", lambda *args, **kw: None)
  for c in st.SettingsTab.__mro__:
    if "responsive" in c.__dict__:
      ctx.patch(c, "responsive", lambda *args, **kw: None)

  class Tab(st.SettingsTab):
    def _nametowidget(self, _):
      return root

    def winfo_parent(self):
      return "."
  specs = inspect.signature(st.SettingsTab.__init__).parameters["setting_specs"].default
  t = Tab(None)
  names = [k for k, kw in specs if not (kw or {}).get("is_spacer")]
  assert len(names) == len(made), (names, len(made))
  return t, root, dict(zip(names, made))


DIRECT = {  # setting: (kind, default, left, right)
    "max_n_modes": ("int", None), "sinusoidal__tracker__max_n_sines": ("int", 1), "sinusoidal__tracker__h": ("int", 1),
    "sinusoidal__tracker__freq_dev_offset": ("float", 0, None, None), "sinusoidal__tracker__freq_dev_slope": ("float", 0, None, None),
    "sinusoidal__tracker__peak_threshold": ("float", 0, None, None), "sinusoidal__t": ("float", 0, None, None),
    "sinusoidal__tracker__min_sine_dur": ("float", .1, 0, None), "beat_decisor__th": ("float", 4, 0, None),
    "beatsdrop__lpf": ("float", 12, 2, 50), "sinusoidal__tracker__strip_t": ("strip",),
}


def compare(ctx, a, b, msg):
  ctx.check(set(a) == set(b), msg + ": same names")
  for k in a:
    x, y = a[k], b.get(k)
    if isinstance(x, Win):
      ctx.check(isinstance(y, Win) and x.type == y.type, msg + ": " + k)
      x, y = x.size, y.size
    if isinstance(x, (str, bool, type(None))) or isinstance(y, (str, bool, type(None))):
      ctx.check(type(x) is type(y) and x == y, msg + ": " + k)
    else:
      ctx.eq(list(x) if isinstance(x, (tuple, list)) else x, list(y) if isinstance(y, (tuple, list)) else y, msg + ": " + k, tol=0)


def apply(ctx, keys):
  st = ctx.mod("sample.widgets.settings")
  calls = windows_stub(ctx, st)
  f = File(None)
  t, root, var = build(ctx, st, f)
  first = dict(root.sample_object_kwargs)
  vals, inf = {}, False
  for k in keys:
    if k in ("parallel", "sinusoidal__tracker__reverse", "sinusoidal__padded", "beatsdrop"):
      vals[k] = bool(ctx.bool(k))
      var[k].set(vals[k])
    elif k == "wtype":
      vals[k] = ctx.choice(k, ["blackman", "hann", "tukey"])
      var[k].set(vals[k])
    elif k == "gui_theme":
      vals[k] = ctx.choice(k, ["", "arc", "no such theme"])
      var[k].set(vals[k])
      ctx.cover("theme")
    else:
      s, vals[k] = text(ctx, k, *((-4, 40) if k in ("sinusoidal__n", "wsize") else ()))
      var[k].set(s)
      inf = inf or s in ("nan", "inf", "-inf")
  del calls[:]
  _, exc = ctx.raises(lambda: t.apply_cbk(), ValueError, OverflowError, TypeError, RuntimeError)
  ctx.check(exc is None, "settings are applied whatever is typed")
  if exc is not None:
    return
  p = dict(root.sample_object_kwargs)
  saved = dict(f.d)
  ctx.check(set(p) == set(first), "same parameters")
  ctx.check(set(saved) == set(var), "every setting is saved")
  rest = {k: v for k, v in first.items() if k not in keys and not ({"smfb_0", "smfb_1"} & set(keys) and k.endswith("frequency_bounds"))
          and not ({"sinusoidal__n", "wsize", "wtype"} & set(keys) and k in ("sinusoidal__w", "sinusoidal__n"))
          and not (k == "n_jobs" and "parallel" in keys)}
  compare(ctx, rest, {k: p.get(k) for k in rest}, "other parameters stay")
  for k in keys:
    v = vals[k]
    if k in DIRECT:
      s = DIRECT[k]
      r = p[k]
      if s[0] == "strip":
        strip_ok(ctx, r, v)
      elif s[0] == "int":
        if v is None:
          ctx.check(r is s[1] or (r is not None and r == s[1]) or (r is not None and inf and r >= 1), "default or a positive integer: " + k)
        else:
          ctx.check(r is not None and r >= 1, "positive integer: " + k)
          ctx.implies(v >= 1, r == ctx.fn("floor")(v), "integer as typed: " + k)
      elif v is not None:
        lo, hi = s[2:]
        ok = ctx.And(True if lo is None else v >= lo, True if hi is None else v <= hi)
        ctx.implies(ok, r == v, "number as typed: " + k)
        ctx.check(ctx.And(True if lo is None else r >= lo, True if hi is None else r <= hi), "within the limits: " + k)
      elif not inf:
        ctx.eq(r, s[1], "default: " + k)
      elif s[2] is not None:
        ctx.check(r >= s[2] if s[3] is None else ctx.And(r >= s[2], r <= s[3]), "within the limits: " + k)
      if not (r is None or inf):
        ctx.eq(saved[k], r, "saved: " + k, tol=0)
    elif isinstance(v, bool) and k != "parallel":
      ctx.check(p[k] is v or bool(p[k]) == v, "boolean: " + k)
  if "smfb_0" in keys and not inf:
    a, b = [0 if vals[k] is None else vals[k] for k in ("smfb_0", "smfb_1")]
    bounds_ok(ctx, a, b, {k: saved[k] for k in ("smfb_0", "smfb_1")}, p)
  if "wsize" in keys:
    n, w = p["sinusoidal__n"], p["sinusoidal__w"]
    ctx.check(ctx.And(w.size >= 1, w.size <= n), "the window is not longer than the FFT")
    ctx.eq([saved["wsize"], saved["sinusoidal__n"]], [w.size, n], "window and FFT sizes reported back", tol=0)
    ctx.check(saved["wtype"] == w.type, "window type reported back")
  if "n_jobs" in keys:
    if not vals["parallel"]:
      ctx.check(p["n_jobs"] == 0, "zero jobs when not parallel")
    else:
      ctx.check(p["n_jobs"] >= 1, "at least one job")
  # a second time
  del calls[:]
  t.apply_cbk()
  if not inf:
    compare(ctx, p, root.sample_object_kwargs, "applying again changes nothing")
    compare(ctx, saved, f.d, "applying again saves the same settings")
  # start again from the file
  del calls[:]
  t2, root2, var2 = build(ctx, st, f)
  if not inf:
    compare(ctx, p, root2.sample_object_kwargs, "settings loaded from the file")
    compare(ctx, saved, f.d, "loading the file saves the same settings")
  ctx.cover("from file")


def configs(tier):
  for d in ("no", None, 4):
    yield f"positive int default={d}", pos_int, dict(dflt=d)
  yield "power of two", pow2, {}
  for a in (True, False):
    for b in (True, False):
      yield f"clip left={a} right={b}", clip, dict(left=a, right=b)
  yield "strip", strip, {}
  yield "bool", boolean, {}
  yield "windows", windows, {}
  yield "bounds", bounds, {}
  yield "jobs", jobs, {}
  groups = [[k] for k in DIRECT] + [["smfb_0", "smfb_1"], ["sinusoidal__n", "wsize"], ["wsize", "wtype"], ["parallel", "n_jobs"], ["gui_theme"],
                                    ["sinusoidal__tracker__reverse", "sinusoidal__padded", "beatsdrop"]]
  if tier == "thorough":
    groups += [["sinusoidal__n", "wsize", "wtype"], ["sinusoidal__tracker__h", "sinusoidal__tracker__strip_t"], ["max_n_modes", "parallel", "n_jobs"]]
  for g in groups:
    yield "apply " + "+".join(g), apply, dict(keys=g)
