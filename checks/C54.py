"""C54 the figure script makes the requested figures from correct features"""
import math
import os
import tempfile

BOUNDS = ("signals of 1..6 samples (thorough: 8) with every value; every frequency, amplitude and decay of the transforms of one partial and of a beat; every subset of 3 requested figures; "
          "1..3 by 1..3 panels, every width, aspect and default figure size; every saturation")
OUTSIDE = "drawing itself (matplotlib is a stand-in that records what it is asked to draw); the fixed sounds of the paper; sign convention of non-zero initial phases in the transforms"
ASSUMPTIONS = ["matplotlib converts colours correctly"]
COVERS = {"maximum", "minimum", "border", "crossing", "no crossing", "one partial", "beat", "default partial", "half", "requested", "all", "panels", "transposed", "saved", "resaturated"}
REL = "scripts/beatsdrop/figures.py"


def extrema(ctx, n, cmp):
  m = ctx.script(REL)
  v = ctx.reals("a", n, -10, 10)
  a = ctx.arr(v, float)
  r = m._find_extrema(a) if cmp is None else m._find_extrema(a, cmp=getattr(ctx.np, cmp))
  ctx.check(tuple(r.shape) == (n,), "one flag for each sample")
  for i in range(n):
    if i in (0, n - 1):
      ctx.check(ctx.Not(r[i]), "borders are not extrema")
      ctx.cover("border")
      continue
    if cmp == "less":
      want = ctx.And(v[i] < v[i - 1], v[i] < v[i + 1])
    else:
      want = ctx.And(v[i] > v[i - 1], v[i] > v[i + 1])
    ctx.check(ctx.Or(ctx.And(r[i], want), ctx.And(ctx.Not(r[i]), ctx.Not(want))), "exactly the strict local extrema")
    if bool(want):
      ctx.cover("minimum" if cmp == "less" else "maximum")
  ctx.eq(a, ctx.arr(v, float), "the signal is not modified", tol=0)


def crossings(ctx, n):
  m = ctx.script(REL)
  v = ctx.reals("a", n, -10, 10)
  a = ctx.arr(v, float)
  r = m._find_zerox(a)
  ctx.check(tuple(r.shape) == (n,), "one flag for each sample")
  ctx.check(ctx.Not(r[0]), "nothing is crossed before the first sample")
  for i in range(1, n):
    b0, b1 = v[i - 1] > 0, v[i] > 0
    cross = ctx.Or(ctx.And(b0, ctx.Not(b1)), ctx.And(b1, ctx.Not(b0)))
    ctx.check(ctx.Or(ctx.And(r[i], cross), ctx.And(ctx.Not(r[i]), ctx.Not(cross))), "exactly the samples after a change of sign")
    ctx.cover("crossing" if bool(cross) else "no crossing")
  ctx.eq(a, ctx.arr(v, float), "the signal is not modified", tol=0)


def cplx(z):
  return (z.real, z.imag)


def mul(x, y):
  return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])


def add(x, y):
  return (x[0] + y[0], x[1] + y[1])


def same(ctx, x, y, msg):
  ctx.eq(x[0], y[0], msg + " (real part)", tol=1e-6)
  ctx.eq(x[1], y[1], msg + " (imaginary part)", tol=1e-6)


def transform(ctx, what, half):
  m = ctx.script(REL)
  nu, f = ctx.real("nu", -100, 100), ctx.real("f", 1, 100)
  a, d = ctx.real("a", .01, 10), ctx.real("d", .01, 10)
  kw = {} if half is None else {"half": half}

  def den(g, dec, s):
    return (2 / dec, 2 * math.pi * (nu - s * g))

  def check(z, parts, msg):
    """z = sum of the transforms of the partials, without divisions"""
    dens = []
    for g, amp, dec in parts:
      dens.append((den(g, dec, 1), amp))
      if not half:
        dens.append((den(g, dec, -1), amp))
    lhs = cplx(z)
    for dd, _ in dens:
      lhs = mul(lhs, dd)
    rhs = (0., 0.)
    for i, (_, amp) in enumerate(dens):
      p = (amp / 2, 0.)
      for j, (dd, _) in enumerate(dens):
        if i != j:
          p = mul(p, dd)
      rhs = add(rhs, p)
    same(ctx, lhs, rhs, msg)

  if what == "exp":
    z = m._exp_ft(nu, a)
    same(ctx, mul(cplx(z), (a, 2 * math.pi * nu)), (1., 0.), "transform of an exponential")
    return
  if what == "cos":
    check(m._cos_ft(nu, f, a=a, d=d, **kw), [(f, a, d)], "transform of a damped cosine")
    ctx.cover("one partial")
  elif what == "default":
    z, w = m._cos_ft(nu, f, **kw), m._cos_ft(nu, f, 1., 1., 0., **kw)
    same(ctx, cplx(z), cplx(w), "default partial")
    z, w = m._beat_ft(nu, f, a, d, **kw), m._beat_ft(nu, f, a, d, 0., f + 2, a, d, 0., **kw)
    same(ctx, cplx(z), cplx(w), "the second partial is by default like the first, 2 Hz higher")
    ctx.cover("default partial")
  elif what == "phase":
    z, w = m._cos_ft(nu, f, a=a, d=d, phi=math.pi, **kw), m._cos_ft(nu, f, a=a, d=d, **kw)
    same(ctx, cplx(z), (-w.real, -w.imag), "half a turn of phase changes the sign")
  else:
    g, b, e = ctx.real("g", 1, 100), ctx.real("b", .01, 10), ctx.real("e", .01, 10)
    z = m._beat_ft(nu, f, a, d, nu_2=g, a_2=b, d_2=e, **kw)
    x, y = m._cos_ft(nu, f, a=a, d=d, **kw), m._cos_ft(nu, g, a=b, d=e, **kw)
    same(ctx, cplx(z), (x.real + y.real, x.imag + y.imag), "the transform of a beat is the sum of those of its partials")
    for p, i, j in ((0., math.pi), 1, -1), ((math.pi, 0.), -1, 1):
      z = m._beat_ft(nu, f, a, d, p[0], g, b, e, p[1], **kw)
      same(ctx, cplx(z), (i * x.real + j * y.real, i * x.imag + j * y.imag), "each partial has its own phase")
    z = m._beat_ft(nu, f, a, d, math.pi, g, b, e, **kw)
    same(ctx, cplx(z), (-x.real - y.real, -x.imag - y.imag), "the second partial has by default the phase of the first")
    ctx.cover("beat")
  if half:
    ctx.cover("half")


class Stage:
  """records what is drawn"""

  def __init__(self, ctx, m):
    self.log = []
    log = self.log
    ctx.patch(m.plt.style, "use", lambda *a, **k: log.append(("style", a)))
    ctx.patch(m.plt, "savefig", lambda *a, **k: log.append(("save", a, k)))
    ctx.patch(m.plt, "clf", lambda *a, **k: log.append(("clear",)))


NAMES = ("first", "second", "third")


def script(m, log):
  """the script's arguments with recorded figures only"""

  class Args(m.ArgParser):
    _PLOTS = {}

  def make(k):
    def f(args, **kw):
      """Figure

      Args: none"""
      log.append((k, args, kw, os.path.isdir(args.output)))
    return f

  fs = [make(k) for k in NAMES]
  ok = all(Args.register_plot(k, **({"size": i} if i % 2 else {}))(f) is f for i, (k, f) in enumerate(zip(NAMES, fs)))
  return Args, ok


def requested(ctx, main):
  m = ctx.script(REL)
  st = Stage(ctx, m)
  want = [bool(b) for b in ctx.bools("want", 3)]
  made = []
  Args, ok = script(m, made)
  ctx.check(ok, "registered functions are still there")
  with tempfile.TemporaryDirectory() as tmp:
    out = os.path.join(tmp, "new", "folder")
    argv = [out, "--mpl-style", "some.style"] + [f"--plot-{k}" for k, b in zip(NAMES, want) if b]
    if main:
      ctx.patch(m, "ArgParser", Args)
      ctx.raises(lambda: m.main(*argv), SystemExit)
    else:
      p = Args()
      args = p.custom_parse_args(argv)
      p.make_plots(args)
    ctx.undo()
  sel = [i for i in range(3) if want[i]] or list(range(3))
  ctx.cover("requested" if any(want) else "all")
  ctx.check([x[0] for x in made] == [NAMES[i] for i in sel], "exactly the requested figures are made, once, or all of them")
  for x in made:
    i = NAMES.index(x[0])
    ctx.check(x[2] == ({"size": i} if i % 2 else {}), "figures have their own arguments")
    ctx.check(x[1].output == out, "figures go to the output folder")
    if main:
      ctx.check(x[3], "the output folder is made before the figures")
  ctx.check(("style", ("some.style",)) in st.log, "the given style is used")


def saved(ctx, clf, ext):
  m = ctx.script(REL)
  st = Stage(ctx, m)

  class A:
    pass

  A.output, A.ext = os.path.join("out", "dir"), ext
  m.save_fig("name", A, **({} if clf is None else {"clf": clf}), dpi=7)
  ctx.undo()
  ctx.check(len([x for x in st.log if x[0] == "save"]) == 1, "the figure is saved once")
  ctx.check(st.log[0][0] == "save", "the figure is saved before clearing it")
  k = dict(st.log[0][2])
  fn = st.log[0][1][0] if st.log[0][1] else k.pop("fname")
  ctx.check(fn == os.path.join("out", "dir", "name" + ext), "the figure is saved in the output folder with the extension")
  ctx.check(k == {"dpi": 7}, "arguments for saving")
  ctx.check((("clear",) in st.log) == (clf is not False), "the figure is cleared unless kept")
  ctx.cover("saved")


def panels(ctx, shape, horizontal, share, given):
  m = ctx.script(REL)
  wd, asp = ctx.real("w", .1, 5), ctx.real("aspect", .1, 5)
  fw, fh = ctx.real("fw", 1, 20), ctx.real("fh", 1, 20)
  calls = []

  def subplots(*s, **k):
    calls.append((tuple(int(v) for v in s), k))
    a = ctx.np.empty(tuple(int(v) for v in s), dtype=object)
    for i in range(a.shape[0]):
      for j in range(a.shape[1]):
        a[i, j] = (i, j)
    return "figure", a

  class Rc(dict):
    pass

  ctx.patch(m.plt, "subplots", subplots)

  class Mpl:
    rcParams = {"figure.figsize": [fw, fh]}

  ctx.patch(m, "mpl", Mpl)
  kw = {"squeeze": False}
  if share:
    kw.update(sharex=share[0], sharey=share[1])
  if given:
    kw["figsize"] = (3, 4)
  fig, axs = m.subplots(vshape=shape, w=wd, aspect=asp, horizontal=horizontal, **kw)
  ctx.undo()
  ctx.check(fig == "figure" and len(calls) == 1, "one figure")
  s, k = calls[0]
  r, c = (shape[1], shape[0]) if horizontal else shape
  ctx.check(s == (r, c), "shape of the grid")
  ctx.check(tuple(axs.shape) == tuple(shape), "panels are indexed as in the vertical arrangement")
  for i in range(shape[0]):
    for j in range(shape[1]):
      ctx.check(tuple(axs[i, j]) == ((j, i) if horizontal else (i, j)), "arrangement of the panels")
  if given:
    ctx.check(tuple(k["figsize"]) == (3, 4), "given size")
  else:
    ctx.eq(k["figsize"][0], fw * wd, "width of the figure", tol=1e-6)
    ctx.eq(k["figsize"][1] * c * asp, fh * wd * r, "aspect of the panels", tol=1e-6)
  ctx.check(k.get("squeeze") is False, "other arguments")
  if share:
    ex = {"row": "col", "col": "row"}
    for n, v in zip(("sharex", "sharey"), share):
      ctx.check(k[n] == (ex.get(v, v) if horizontal else v), "sharing follows the arrangement")
  ctx.cover("transposed" if horizontal else "panels")


def colours(ctx, via):
  m = ctx.script(REL)
  h, s, v = ctx.reals("hsv", 3, 0, 1)
  k = ctx.real("k", 0, 2)
  seen = []
  ctx.patch(m.colors, "to_rgb", lambda c: ("rgb", c))
  ctx.patch(m.colors, "rgb_to_hsv", lambda c: ctx.arr([h, s, v], float) if c == ("rgb", "C3") else None)
  ctx.patch(m.colors, "hsv_to_rgb", lambda c: seen.append(list(c)) or "result")
  if via == "args":
    Stage(ctx, m)
    args = m.ArgParser().custom_parse_args(["out"])
    args.saturation = k
    r = args.colors(3)
  else:
    r = m.resaturate("C3", k)
  ctx.undo()
  ctx.check(r == "result" and len(seen) == 1, "a colour")
  ctx.eq(ctx.arr(seen[0], float), ctx.arr([h, s * k, v], float), "only the saturation is multiplied", tol=1e-9)
  ctx.cover("resaturated")


def configs(tier):
  th = tier == "thorough"
  q = [(f"extrema{n}{c}", extrema, dict(n=n, cmp=c)) for n in range(1, 9 if th else 6) for c in (None, "greater", "less")]
  q += [(f"crossings{n}", crossings, dict(n=n)) for n in range(1, 9 if th else 7)]
  q += [(f"ft-{w}-{h}", transform, dict(what=w, half=h)) for w in ("cos", "default", "phase", "beat") for h in (None, False, True)]
  q += [("ft-exp", transform, dict(what="exp", half=None))]
  q += [(f"requested-{b}", requested, dict(main=b)) for b in (False, True)]
  q += [(f"saved-{c}-{e}", saved, dict(clf=c, ext=e)) for c in (None, True, False) for e in (".pdf", ".x.png")]
  q += [(f"panels-{r}x{c}-{h}-{i}", panels, dict(shape=(r, c), horizontal=h, share=s, given=g))
        for r, c in ((1, 1), (2, 1), (3, 2), (1, 3)) for h in (False, True)
        for i, (s, g) in enumerate(((None, False), (("col", "row"), False), ((True, "row"), True), ((False, "none"), False)))]
  q += [(f"colours-{v}", colours, dict(via=v)) for v in ("direct", "args")]
  return q
