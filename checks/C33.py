"""C33 deprecated arguments reach their replacement unchanged"""
import warnings

BOUNDS = "every subset of the deprecated arguments of each group of 3..4 names (plain, prefixed, converted and chained), with or without positional and other arguments, by constructor and set_params; every value (symbolic reals) and mode of the analytic flag"
OUTSIDE = "giving a deprecated argument together with its replacement; larger subsets across groups; message texts beyond the names"
ASSUMPTIONS = ["model constructors given to the optimiser are stand-ins recording their arguments"]
COVERS = {"plain", "prefix", "convert", "chain", "none", "silent", "sinusoidal", "modal", "sample", "analytic", "optimizer sample_fn", "optimizer sample_kw", "positional"}


def call(ctx, fn, *a, **k):
  """(result, exception, deprecation warnings)"""
  ui = ctx.mod("sample.utils")
  with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    r, exc = ctx.raises(lambda: fn(*a, **k), TypeError, ValueError, KeyError, AttributeError)
  return r, exc, [str(x.message) for x in w if issubclass(x.category, ui.SAMPLEDeprecationWarning)]


def warned(ctx, msgs, used, exact=True):
  n = {k: sum(f"'{k}'" in m.split("deprecated")[0] for m in msgs) for k in used}
  ctx.check(all(v >= 1 for v in n.values()), "a warning names every deprecated argument used")
  if exact:
    ctx.check(len(msgs) == len(used), "one warning per deprecated argument used and none otherwise")
  elif not used:
    ctx.check(not msgs, "no warning when nothing is deprecated")


def subset(ctx, names):
  return [k for k in names if bool(ctx.bool("use_" + k))]


def values(ctx, names):
  return {k: ctx.real("v_" + k) for k in names}


def same_kwargs(ctx, got, want, msg="arguments"):
  ctx.check(set(got) == set(want), msg + ": same names")
  for k in want:
    if k in got:
      ctx.eq(got[k], want[k], f"{msg}: {k}", tol=0)


def generic(ctx, kind, warn):
  ui = ctx.mod("sample.utils")
  got = {}

  def f(*a, **k):
    got["a"], got["k"] = a, k
    return "result"
  kw = {} if warn is None else {"warn": warn}
  pos = tuple(ctx.reals("pos", ctx.choice("npos", [0, 1])))
  if kind == "plain":
    g = ui.deprecated_argument("old", "new", **kw)(ui.deprecated_argument("ancient", "modern", **kw)(f))
    use = subset(ctx, ["old", "ancient", "other", "olden"])
    v = values(ctx, use)
    want = {{"old": "new", "ancient": "modern"}.get(k, k): x for k, x in v.items()}
    dep = [k for k in use if k in ("old", "ancient")]
  elif kind == "prefix":
    g = ui.deprecated_argument("pre_", "post__", prefix=True, **kw)(f)
    use = subset(ctx, ["pre_a", "pre_", "pre_b_pre_c", "a", "npre_a"])
    v = values(ctx, use)
    dep = [k for k in use if k.startswith("pre_")]
    want = {("post__" + k[4:] if k in dep else k): x for k, x in v.items()}
  elif kind == "convert":
    g = ui.deprecated_argument("old", convert=lambda *a, **k: ("new", 2 * k["old"] + k.get("other", 0) + sum(a)), msg="Twice.", **kw)(f)
    use = subset(ctx, ["old", "other", "third"])
    v = values(ctx, use)
    dep = [k for k in use if k == "old"]
    want = dict(v)
    if dep:
      want["new"] = 2 * want.pop("old") + v.get("other", 0) + sum(pos)
  else:
    g = ui.deprecated_argument("oldest", "older", **kw)(ui.deprecated_argument("older", convert=lambda *a, **k: ("new", -k["older"]), **kw)(f))
    use = [k for k in (ctx.choice("which", ["oldest", "older", "new"]),)] + subset(ctx, ["other"])
    v = values(ctx, use)
    dep = [k for k in use if k in ("oldest", "older")]
    want = {("new" if k in dep else k): (-x if k in dep else x) for k, x in v.items()}
    if "oldest" in dep:
      dep.append("older")
  before = dict(v)
  r, exc, msgs = call(ctx, g, *pos, **v)
  ctx.check(exc is None and r == "result", "the function is called and its result returned")
  if exc is not None:
    return
  ctx.check(v == before or set(v) == set(before), "the arguments of the caller are not modified")
  same_kwargs(ctx, got["k"], want)
  ctx.check(len(got["a"]) == len(pos), "positional arguments are passed on")
  if pos:
    ctx.eq(list(got["a"]), list(pos), "positional arguments are passed on", tol=0)
    ctx.cover("positional")
  if warn is False:
    ctx.check(not msgs, "no warnings when turned off")
    ctx.cover("silent")
  else:
    warned(ctx, msgs, dep)
  if dep:
    ctx.cover(kind)
  else:
    ctx.cover("none")


def params(m):
  return m.get_params(deep=True)


def same_params(ctx, a, b):
  p, q = params(a), params(b)
  ctx.check(set(p) == set(q), "same parameters")
  for k in p:
    x, y = p[k], q.get(k)
    if hasattr(x, "get_params") or callable(x):
      ctx.check(type(x) is type(y), "same sub-model: " + k)
    elif isinstance(x, tuple):
      ctx.eq(list(x), list(y), "parameter " + k, tol=0)
    elif getattr(x, "size", 0) > 10:  # the default window
      ctx.check(getattr(y, "shape", None) == x.shape, "parameter " + k)
      ctx.eq(x[:3], y[:3], "parameter " + k, tol=0)
    elif isinstance(x, (str, bool, type(None))) or isinstance(y, (str, bool, type(None))):
      ctx.check(x == y if isinstance(x, str) else x is y, "parameter " + k)
    else:
      ctx.eq(x, y, "parameter " + k, tol=0)


SINE = {"max_n_sines": "tracker__max_n_sines", "min_sine_dur": "tracker__min_sine_dur", "freq_dev_offset": "tracker__freq_dev_offset",
        "freq_dev_slope": "tracker__freq_dev_slope", "save_intermediate": "intermediate__save", "fs": "tracker__fs", "h": "tracker__h"}
MODAL = {"reverse": "tracker__reverse", "frequency_bounds": "tracker__frequency_bounds", "peak_threshold": "tracker__peak_threshold",
         "merge_strategy": "tracker__merge_strategy", "strip_t": "tracker__strip_t"}


def value(ctx, k):
  if k == "frequency_bounds":
    return (ctx.real("v_lo"), ctx.real("v_hi"))
  if k in ("reverse", "save_intermediate"):
    return bool(ctx.bool("v_" + k))
  if k == "merge_strategy":
    return ctx.choice("v_" + k, ["single", "average"])
  return ctx.real("v_" + k, 1, 50000)


def model(ctx, cls, names, via, pos=False):
  m = ctx.mod("sample.sms.mm" if cls == "ModalModel" else "sample.sms.sm")
  c = getattr(m, cls)
  use = subset(ctx, names)
  new = {**SINE, **MODAL, "n": "n"}
  v = {k: value(ctx, k) for k in use}
  w = {new[k]: x for k, x in v.items()}
  dep = [k for k in use if k != "n"]
  a = (ctx.arr(ctx.reals("w", 2), float),) if pos else ()
  if via == "init":
    x, exc, msgs = call(ctx, c, *a, **v)
    y, _, quiet = call(ctx, c, *a, **w)
  else:
    x, y = c(*a), c(*a)
    r, exc, msgs = call(ctx, x.set_params, **v)
    _, _, quiet = call(ctx, y.set_params, **w)
    ctx.check(exc is not None or r is x, "set_params returns the model")
  ctx.check(exc is None, "deprecated arguments are accepted")
  if exc is not None:
    return
  same_params(ctx, x, y)
  warned(ctx, msgs, dep)
  ctx.check(not quiet, "the replacements issue no warning")
  p = params(x)
  for k in use:
    if isinstance(v[k], tuple):
      ctx.eq(list(p[new[k]]), list(v[k]), "value reaches the replacement: " + k, tol=0)
    elif isinstance(v[k], (bool, str)):
      ctx.check(p[new[k]] == v[k], "value reaches the replacement: " + k)
    else:
      ctx.eq(p[new[k]], v[k], "value reaches the replacement: " + k, tol=0)
  ctx.cover("modal" if cls == "ModalModel" else "sinusoidal")


def special(ctx, cls, via, pos):
  """class of the tracker, length of the shortest track"""
  m = ctx.mod("sample.sms.mm" if cls == "ModalModel" else "sample.sms.sm")
  sm = ctx.mod("sample.sms.sm")
  c = getattr(m, cls)

  class Tracker(sm.SineTracker):
    pass
  use = subset(ctx, ["sine_tracker_cls", "safe_sine_len", "min_sine_dur", "fs"])
  v = {}
  want = {}
  for k in use:
    v[k] = Tracker if k == "sine_tracker_cls" else ctx.real("v_" + k, -5, 50000)
  if "safe_sine_len" in use and bool(ctx.bool("none")):
    v["safe_sine_len"] = None
  a = (ctx.arr(ctx.reals("w", 2), float),) if pos else ()
  if via == "init":
    x, exc, msgs = call(ctx, c, *a, **v)
  else:
    x = c(*a)
    _, exc, msgs = call(ctx, x.set_params, **v)
  ctx.check(exc is None, "deprecated arguments are accepted")
  if exc is not None:
    return
  warned(ctx, msgs, use)
  if "sine_tracker_cls" in use:
    ctx.check(type(x.tracker) is Tracker, "tracker of the class given")
  else:
    ctx.check(type(x.tracker) is not Tracker, "tracker of the default class")
  p = params(x)
  if "fs" in use:
    ctx.eq(p["tracker__fs"], v["fs"], "sample rate", tol=0)
  d = v.get("min_sine_dur")
  if "safe_sine_len" in use:
    d = 1 if d is None else d
    s = v["safe_sine_len"]
    s = -1 if s is None else s
    want = ctx.ite(s >= d, s, d)
  else:
    want = params(c())["tracker__min_sine_dur"] if d is None else d
  ctx.eq(p["tracker__min_sine_dur"], want, "minimum duration", tol=0)


def sample(ctx, via, names):
  smp = ctx.mod("sample.sample")
  mm = ctx.mod("sample.sms.mm")
  use = subset(ctx, names)
  v, w, dep, n = {}, {}, [], 0
  given = None
  for k in use:
    if k == "sinusoidal_model":
      given = mm.ModalModel()
      v[k] = w["sinusoidal"] = given
    else:
      v[k] = value(ctx, k.rsplit("__")[-1])
      tail = k.split("__", 1)[1] if "__" in k else None
      w[k if not k.startswith("sinusoidal") else "sinusoidal__" + {**SINE, **MODAL}.get(tail, tail)] = v[k]
    if k.startswith("sinusoidal_model"):
      dep.append(k)
      n += 1
    if k.startswith("sinusoidal") and "__" in k and k.split("__", 1)[1] in {**SINE, **MODAL}:
      dep.append(k.split("__", 1)[1])
      n += 1
  if via == "init":
    x, exc, msgs = call(ctx, smp.SAMPLE, **v)
    y, _, quiet = call(ctx, smp.SAMPLE, **{k: (mm.ModalModel() if k == "sinusoidal" else z) for k, z in w.items()})
  else:
    x, y = smp.SAMPLE(), smp.SAMPLE()
    _, exc, msgs = call(ctx, x.set_params, **v)
    _, _, quiet = call(ctx, y.set_params, **{k: (mm.ModalModel() if k == "sinusoidal" else z) for k, z in w.items()})
  ctx.check(exc is None, "deprecated arguments are accepted")
  if exc is not None:
    return
  same_params(ctx, x, y)
  if given is not None:
    ctx.check(x.sinusoidal is given, "the sinusoidal model given is used")
  ctx.check(len(msgs) == n, "one warning per deprecated argument")
  warned(ctx, msgs, dep, exact=False)
  ctx.check(not quiet, "the replacements issue no warning")
  ctx.cover("sample")


def analytic(ctx, what, flag):
  """flag: value given"""
  t = ctx.reals("t", 2, 0, 3)
  if what == "synth":
    smp = ctx.mod("sample.sample")
    f, d, a = [ctx.arr([ctx.real(k, .5, 3)], float) for k in "fda"]
    fn = lambda **k: smp.additive_synth(ctx.arr(t, float), f, d, a, **k)
  elif what == "wavefun":
    ps = ctx.mod("sample.psycho")
    g = ps.GammatoneFilter(ctx.real("f", 1, 2))
    fn = lambda **k: g.wavefun(ctx.arr(t, float), **k)
  else:
    me = ctx.mod("sample.evaluation.metrics")
    fn = lambda **k: me.CochleagramLoss(fs=8, **k)
  x, exc, msgs = call(ctx, fn, analytical=flag)
  y, exc2, quiet = call(ctx, fn, analytic=flag)
  z, _, _ = call(ctx, fn)
  ctx.check(exc is None and exc2 is None, "both are accepted")
  if exc is not None or exc2 is not None:
    return
  if what == "cochleagram":
    ctx.check(set(vars(x)) == set(vars(y)) and x.postprocessing == y.postprocessing, "same as with the replacement")
  else:
    ctx.eq(x, y, "same as with the replacement", tol=1e-9)
  warned(ctx, msgs, ["analytical"])
  ctx.check(not quiet, "the replacement issues no warning")
  ctx.cover("analytic")


def optimizer(ctx, names, remap, pos):
  opt = ctx.mod("sample.optimize")
  smp = ctx.mod("sample.sample")
  use = subset(ctx, names)
  seen = []

  def make(**k):
    seen.append(dict(k))
    return smp.SAMPLE(**k)

  def rm(**k):
    return {**k, "sinusoidal__tracker__fs": ctx_fs}
  ctx_fs = ctx.real("fs", 1, 50000)
  v = {}
  kw = {"max_n_modes": ctx.int("modes", 1, 9), "sinusoidal__t": ctx.real("th", -100, 0)}
  if "sample_fn" in use:
    v["sample_fn"] = make
  if "sample_kw" in use:
    v["sample_kw"] = dict(kw) if bool(ctx.bool("given")) else {}
  if "model" in use:
    v["model"] = smp.SAMPLE(sinusoidal__n=64)
  if remap:
    v["remap"] = rm
  given = v.get("model")
  v["x"] = (0, 1)
  x, exc, msgs = call(ctx, opt.SAMPLEOptimizer, **v)
  ctx.check(exc is None, "deprecated arguments are accepted")
  if exc is not None:
    return
  ctx.check(isinstance(x.model, smp.SAMPLE), "a model is made")
  p = x.model.get_params()
  k = v.get("sample_kw", {})
  d = smp.SAMPLE().get_params()
  for n in kw:
    ctx.eq(p[n], k[n], "argument reaches the model: " + n, tol=0) if n in k else (
        ctx.check(p[n] is d[n] or p[n] == d[n], "other parameters stay: " + n))
  if remap and ({"sample_fn", "sample_kw"} & set(use)):
    ctx.eq(p["sinusoidal__tracker__fs"], ctx_fs, "remapped arguments reach the model", tol=0)
  if "sample_fn" in use:
    ctx.check(len(seen) == 1, "the constructor is called")
    ctx.cover("optimizer sample_fn")
  if given is not None and "sample_fn" not in use:
    ctx.check(x.model is given, "the model given is used")
  if "sample_kw" in use:
    ctx.cover("optimizer sample_kw")
  ctx.check(list(x.dimensions) == ["x"], "only parameters to optimise are dimensions")
  warned(ctx, msgs, [u for u in use if u != "model"])


def configs(tier):
  for kind in ("plain", "prefix", "convert", "chain"):
    for warn in (None, True, False):
      yield f"{kind} warn={warn}", generic, dict(kind=kind, warn=warn)
  gs = [["max_n_sines", "min_sine_dur", "n"], ["freq_dev_offset", "freq_dev_slope", "save_intermediate"], ["fs", "h", "n", "max_n_sines"]]
  gm = [["reverse", "frequency_bounds", "peak_threshold"], ["merge_strategy", "strip_t", "fs"], ["h", "strip_t", "reverse"]]
  if tier == "thorough":
    gs += [["max_n_sines", "min_sine_dur", "freq_dev_offset", "freq_dev_slope", "fs"], list(SINE)]
    gm += [["max_n_sines", "reverse", "strip_t", "save_intermediate", "fs"], list(MODAL) + ["h"]]
  for via in ("init", "set"):
    for g in gs:
      yield f"sinusoidal {via} {g}", model, dict(cls="SinusoidalModel", names=g, via=via)
    for g in gm + gs[:1]:
      yield f"modal {via} {g}", model, dict(cls="ModalModel", names=g, via=via)
    for cls in ("SinusoidalModel", "ModalModel"):
      yield f"special {cls} {via}", special, dict(cls=cls, via=via, pos=False)
    for g in (["sinusoidal_model", "sinusoidal_model__n", "max_n_modes"], ["sinusoidal_model__max_n_sines", "sinusoidal__fs", "regressor_k"][:2],
              ["sinusoidal_model__tracker__h", "sinusoidal_model__t", "sinusoidal__n"]):
      yield f"sample {via} {g}", sample, dict(via=via, names=g)
  yield "sinusoidal positional", model, dict(cls="SinusoidalModel", names=["fs", "n"], via="init", pos=True)
  yield "modal positional", model, dict(cls="ModalModel", names=["strip_t", "h"], via="init", pos=True)
  for cls in ("SinusoidalModel", "ModalModel"):
    yield f"special {cls} positional", special, dict(cls=cls, via="init", pos=True)
  for what in ("synth", "wavefun"):
    for flag in (True, False):
      yield f"analytic {what} {flag}", analytic, dict(what=what, flag=flag)
  for flag in ("ir", "input", None):
    yield f"analytic cochleagram {flag}", analytic, dict(what="cochleagram", flag=flag)
  for remap in (True, False):
    for names in (["sample_fn", "sample_kw"], ["model", "sample_kw"]):
      yield f"optimizer {names} remap={remap}", optimizer, dict(names=names, remap=remap, pos=False)
