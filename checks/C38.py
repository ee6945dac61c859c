"""C38 default sub-models are never shared and nested settings reach them"""
import itertools

BOUNDS = "two models of each class with every subset of explicitly given sub-models; every subset of groups of 3..4 nested parameters, given to the constructor or set later, any (symbolic) values; clones; default properties with up to 2 attributes, 2 instances, any default condition"
OUTSIDE = "sharing after fitting; larger groups of nested parameters; models of other libraries as sub-models"
ASSUMPTIONS = ["copying an unknown number gives the same number"]
COVERS = {"default", "given", "shared when given", "nested", "set later", "clone", "none again", "conditional default", "conditional value", "forbidden", "named", "own getter"}

CLASSES = {
    "SineTracker": ("sample.sms.sm", []), "SinusoidalModel": ("sample.sms.sm", ["tracker", "intermediate", "w"]),
    "ModalTracker": ("sample.sms.mm", []), "ModalModel": ("sample.sms.mm", ["tracker", "intermediate", "w"]),
    "HingeRegression": ("sample.hinge", ["linear_regressor"]), "SAMPLE": ("sample.sample", ["sinusoidal", "regressor"]),
    "BeatRegression": ("sample.beatsdrop.regression", ["linear_regressor"]), "DualBeatRegression": ("sample.beatsdrop.regression", ["linear_regressor"]),
    "AlmostNotABeatDecisor": ("sample.beatsdrop.decision", ["intermediate"]), "BeatDecisor": ("sample.beatsdrop.decision", ["intermediate"]),
    "SAMPLEBeatsDROP": ("sample.beatsdrop.sample", ["beatsdrop", "beat_decisor", "sinusoidal", "regressor"]),
}
TYPES = {("SinusoidalModel", "tracker"): "SineTracker", ("ModalModel", "tracker"): "ModalTracker", ("SAMPLE", "sinusoidal"): "ModalModel", ("SAMPLE", "regressor"): "HingeRegression",
         ("SAMPLEBeatsDROP", "sinusoidal"): "ModalModel", ("SAMPLEBeatsDROP", "regressor"): "HingeRegression",
         ("SAMPLEBeatsDROP", "beatsdrop"): "DualBeatRegression", ("SAMPLEBeatsDROP", "beat_decisor"): "AlmostNotABeatDecisor"}


def cls(ctx, name):
  return getattr(ctx.mod(CLASSES[name][0]), name)


def is_model(x):
  return hasattr(x, "get_params") and not isinstance(x, type)


def parts(ctx, m, path=""):
  """(path, object) of every sub-model and array"""
  for k, v in m.get_params(deep=False).items():
    if is_model(v):
      yield path + k, v
      yield from parts(ctx, v, path + k + "__")
    elif isinstance(v, (ctx.np.ndarray, list, dict)):
      yield path + k, v


def sharing(ctx, name, how):
  c = cls(ctx, name)
  subs = CLASSES[name][1]
  use = [s for s in subs if bool(ctx.bool("give_" + s))]
  bare = type("Bare", (ctx.mod("sklearn.base").BaseEstimator,), {})  # without parameters
  odd = how == "constructor" and bool(ctx.bool("bare"))
  given = {}
  for s in use:
    given[s] = ctx.arr([1., 2.], float) if s == "w" else bare() if odd else type(getattr(c(), s) if getattr(c(), s) is not None else ctx.mod("sklearn.linear_model").LinearRegression())()
  if how == "constructor":
    a, b = c(**given), c(**given)
  elif how == "none":
    a, b = c(**given), c(**{s: given.get(s) for s in subs})
  else:
    a, b = c(), c()
    old = dict(parts(ctx, a))
    for m in (a, b):
      m.set_params(**{s: given.get(s) for s in subs})
    for s in subs:
      if s not in given and getattr(a, s) is not None:
        ctx.check(getattr(a, s) is not old.get(s), "setting nothing makes a new default")
        ctx.cover("none again")
  for s in subs:
    for m in (a, b):
      v = getattr(m, s)
      if s in given:
        ctx.check(v is given[s], "given sub-model is used as is: " + s)
        ctx.check(m.get_params(deep=False)[s] is given[s], "given sub-model is reported: " + s)
        ctx.cover("given")
      else:
        t = TYPES.get((name, s))
        if t is not None:
          ctx.check(type(v) is cls(ctx, t), "type of the default: " + s)
        ctx.check(getattr(m, s) is v, "the default is made once: " + s)
        ctx.cover("default")
    if s in given:
      ctx.cover("shared when given")
  pa, pb = dict(parts(ctx, a)), dict(parts(ctx, b))
  ok = {id(x) for s in given.values() for x in [s] + ([v for _, v in parts(ctx, s)] if is_model(s) else [])}
  for p, x in pa.items():
    for q, y in pb.items():
      if x is y:
        ctx.check(id(x) in ok, f"not shared: {p} {q}")
  ctx.check(len({id(x) for x in pa.values()}) == len(pa), "sub-models of one model are distinct")


def value(ctx, k, i):
  leaf = k.split("__")[-1]
  if leaf in ("reverse", "strip_t", "padded", "save", "disambiguate"):
    return ctx.bool("v%d" % i)
  if leaf == "frequency_bounds":
    return (ctx.real("v%dl" % i), ctx.real("v%dh" % i))
  if leaf in ("regressor_k", "regressor_q", "linear_regressor_k", "linear_regressor_q", "merge_strategy", "method"):
    return "name%d" % i
  if leaf in ("freq_reduce", "coeffs_init", "bounds", "params_init", "freq_loss", "amp_loss"):
    def f(*a):
      return a
    f.__qualname__ = "given%d" % i
    return f
  return ctx.real("v%d" % i)


def level(m, k):
  for p in k.split("__"):
    m = getattr(m, p)
  return m


def same(ctx, a, b, msg):
  if a is b:
    ctx.check(True, msg)
  elif isinstance(a, tuple) and isinstance(b, tuple):
    ctx.check(len(a) == len(b), msg)
    for x, y in zip(a, b):
      same(ctx, x, y, msg)
  elif isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
    ctx.check(type(a) is type(b) and a == b, msg)
  elif is_model(a) or is_model(b):
    ctx.check(type(a) is type(b), msg)
  elif callable(a) or callable(b):
    ctx.check(getattr(a, "__qualname__", a) == getattr(b, "__qualname__", b), msg)
  elif isinstance(a, ctx.np.ndarray):
    ctx.check(len(a) == len(b), msg)
    if len(a) == len(b) and len(a) < 10:
      ctx.eq(a, b, msg, tol=0)
  else:
    ctx.check(a == b, msg)


def nested(ctx, name, keys, how):
  base = ctx.mod("sklearn.base")
  c = cls(ctx, name)
  use = [k for k in keys if bool(ctx.bool("use_" + k.replace("__", "."))) ]
  v = {k: value(ctx, k, i) for i, k in enumerate(keys) if k in use}
  dflt = c()
  d = dflt.get_params()
  if how == "constructor":
    m, exc = ctx.raises(lambda: c(**v), TypeError, ValueError, AttributeError)
  else:
    m = c()
    r, exc = ctx.raises(lambda: m.set_params(**v), TypeError, ValueError, AttributeError)
    ctx.check(exc is not None or r is m, "the model is returned")
    ctx.cover("set later")
  ctx.check(exc is None, "parameters are accepted")
  if exc is not None:
    return

  def judge(m, v, what):
    p = m.get_params()
    ctx.check(set(p) == set(d), what + ": parameter names")
    for k in d:
      if k in p:
        same(ctx, p[k], v.get(k, d[k]), f"{what}: {k}")
    for k in v:
      same(ctx, level(m, k), v[k], f"{what}: {k} at its level")
  judge(m, v, "as given")
  ctx.cover("nested")
  judge(dflt, {}, "another model")
  q = base.clone(m)
  judge(q, v, "clone")
  mine = {id(x) for _, x in parts(ctx, m)}
  ctx.check(not any(id(x) in mine for _, x in parts(ctx, q)), "a clone has its own sub-models")
  ctx.check(type(q) is type(m), "type of the clone")
  for (_, x), (_, y) in zip(parts(ctx, m), parts(ctx, q)):
    ctx.check(type(x) is type(y), "types of the sub-models")
  k = keys[0]
  w = value(ctx, k, 99)
  q.set_params(**{k: w})
  judge(m, v, "as given after changing the clone")
  judge(q, {**v, k: w}, "changed clone")
  m.set_params(**{k: v.get(k, d[k])})
  judge(q, {**v, k: w}, "changed clone after setting the original")
  judge(m, v, "set again")
  ctx.cover("clone")


def prop(ctx, mode):
  """the property itself, with any default condition"""
  le = ctx.mod("sample.utils.learn")
  th = ctx.real("th")
  made = []

  class A:
    pass

  def build(self):
    made.append(self)
    return [len(made)]

  def first(self):
    """First"""
    return build(self)

  def second(self):
    return build(self)
  if mode == "name":
    A.first = le.default_property(name="first")(lambda self: build(self))
    A.second = le.default_property(name="second")(lambda self: build(self))
    ctx.cover("named")
  else:
    A.first = le.default_property(first)
    A.second = le.default_property()(second)
    ctx.check(A.first.__doc__ == "First", "documentation is kept")
  if mode == "cond":
    A.first.defaulter(lambda s, v: v is None or bool(v > th))
  elif mode == "off":
    A.first.defaulter()
  a, b = A(), A()
  x, y = ctx.real("x"), ctx.real("y")
  kx, ky = ctx.choice("kx", ["none", "value"]), ctx.choice("ky", ["none", "value"])
  vx, vy = (None if kx == "none" else x), (None if ky == "none" else y)
  a.first = vx
  b.first = vy
  a.second = None
  b.second = y

  def dflt(v):
    if mode == "off":
      return False
    return v is None or (mode == "cond" and bool(v > th))
  n = 0
  for o, v in ((a, vx), (b, vy)):
    g = o.first
    ctx.check(o.first is g, "read twice")
    if dflt(v):
      n += 1
      ctx.check(isinstance(g, list), "a default is made")
      ctx.cover("conditional default")
    else:
      ctx.check(g is v or (g is not None and not isinstance(g, list) and bool(g == v)), "the value is kept")
      ctx.cover("conditional value")
  ctx.check(isinstance(a.second, list) and not isinstance(b.second, list), "attributes are independent")
  ctx.check(a.second is not a.first and (a.first is not b.first or a.first is None), "defaults are not shared")
  ctx.eq(b.second, y, "attributes are independent", tol=0)
  ctx.check(len(made) == n + 1, "defaults are made when set, once")
  ctx.check(made.count(a) == int(dflt(vx)) + 1 and made.count(b) == int(dflt(vy)), "made for their owner")
  if mode in ("plain", "name"):
    bare = type("Bare", (ctx.mod("sklearn.base").BaseEstimator,), {})()
    for v in ((), {}, "", 0, False, 0., ctx.np.zeros(0), bare, type("Empty", (), {"__len__": lambda s: 0, "__bool__": lambda s: False, "get_params": lambda s, deep=True: {}})()):
      a.first = v
      ctx.check(a.first is v, "only nothing stands for the default")


def forbidden(ctx):
  le = ctx.mod("sample.utils.learn")
  import functools
  for f, kw in ((lambda s: 1, {}), (functools.partial(max), {}), (lambda s: 1, {"name": "_"}), (lambda s: 1, {"name": "<lambda>"})):
    _, exc = ctx.raises(lambda: le.default_property(f, **kw), ValueError)  # pylint: disable=W0640
    ctx.check(isinstance(exc, ValueError), "names that would collide are rejected")
  ctx.cover("forbidden")
  x = ctx.real("x")
  log = []

  class A:

    @le.default_property(fget=lambda s: s.z, fset=lambda s, v: (log.append(v), setattr(s, "z", v)))
    def p(self):
      return 1
  a = A()
  a.p = x
  ctx.eq(a.p, x, "own getter and setter", tol=0)
  ctx.check(len(log) == 1, "own setter is called once")
  ctx.cover("own getter")


TR = ["fs", "h", "max_n_sines", "min_sine_dur", "freq_dev_offset", "freq_dev_slope"]
MT = TR + ["frequency_bounds", "peak_threshold", "reverse", "strip_t", "merge_strategy"]
SMP = ["sinusoidal__t", "sinusoidal__n", "sinusoidal__padded", "sinusoidal__intermediate__save", "regressor__method", "regressor__linear_regressor_k", "regressor_k", "regressor_q", "max_n_modes", "freq_reduce", "regressor__coeffs_init", "regressor__bounds"]
BEAT = ["beatsdrop__fs", "beatsdrop__lpf", "beatsdrop__disambiguate", "beatsdrop__freq_w", "beatsdrop__freq_clip", "beat_decisor__intermediate__save", "beatsdrop__freq_loss", "beatsdrop__amp_loss", "beatsdrop__params_init"]


def groups(keys, n):
  return [keys[i:i + n] for i in range(0, len(keys), n)]


def configs(tier):
  n = 3 if tier == "quick" else 4
  for c in CLASSES:
    for how in ("constructor", "none", "set"):
      yield f"sharing {c} {how}", sharing, dict(name=c, how=how)
  todo = {"SineTracker": TR, "ModalTracker": MT, "SinusoidalModel": ["tracker__" + k for k in TR] + ["t", "n", "padded", "intermediate__save"],
          "ModalModel": ["tracker__" + k for k in MT] + ["t", "n", "padded", "intermediate__save"],
          "SAMPLE": SMP + ["sinusoidal__tracker__" + k for k in MT], "SAMPLEBeatsDROP": BEAT + SMP + ["sinusoidal__tracker__" + k for k in MT],
          "HingeRegression": ["linear_regressor_k", "linear_regressor_q", "method", "coeffs_init", "bounds"], "DualBeatRegression": ["fs", "lpf", "freq_w", "freq_clip", "disambiguate", "freq_loss", "amp_loss", "bounds", "params_init"]}
  for c, ks in todo.items():
    mixed = [ks[i::max(1, (len(ks) + n - 1) // n)] for i in range((len(ks) + n - 1) // n)]
    for g in mixed if tier == "quick" else mixed + groups(ks, n):
      for how in ("constructor", "set") if c not in ("HingeRegression", "SineTracker") else ("set",):
        if c in ("HingeRegression", "DualBeatRegression", "SAMPLE") or how == "set" or len(ks) < 30:
          yield f"nested {c} {how} {','.join(g)}", nested, dict(name=c, keys=g, how=how)
  for mode in ("plain", "cond", "off", "name"):
    yield f"property {mode}", prop, dict(mode=mode)
  yield "forbidden", forbidden, {}
