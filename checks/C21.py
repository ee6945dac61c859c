"""C21 output buffers"""
BOUNDS = "arrays of 2 values (3 for maxima), and scalars; every value of the domain; every buffer-accepting function of psycho, dsp, hinge and the modal model, every variant"
OUTSIDE = "integer arrays, buffers of another shape or dtype, buffers that overlap the input without being the input"
ASSUMPTIONS = ["transcendental functions are functions (equal arguments give equal values)"]
COVERS = {"buffer", "alias", "scalar"}


def specs():
  """name -> (module, call(m, x, **kw), lo, hi, alias allowed, scalar allowed, output dtype)"""
  psy, dsp = "sample.psycho", "sample.utils.dsp"
  d = {}

  def add(name, mod, call, lo, hi, alias=True, scalar=True, dtype=float):
    d[name] = (mod, call, lo, hi, alias, scalar, dtype)

  def var(fname, key, v, lo, hi):
    add(f"{fname}-{v}", psy, lambda m, x, **k: getattr(m, fname)(x, **{key: v}, **k), lo, hi)

  for v in ("zwicker", "traunmuller", "wang"):
    var("hz2bark", "mode", v, 0, 22050)
  for v in ("traunmuller", "wang"):
    var("bark2hz", "mode", v, -.5, 25)
  for v in ("default", "fant"):
    var("hz2mel", "mode", v, 0, 22050)
    var("mel2hz", "mode", v, 0, 4000)
  for v in ("quadratic", "linear"):
    var("erb", "degree", v, 0, 22050)
    var("hz2cams", "degree", v, 0, 22050)
    var("cams2hz", "degree", v, 0, 40)
  add("a_weighting-lin", psy, lambda m, x, **k: m.a_weighting(x, db=False, **k), 1, 22050)
  add("a_weighting-db", psy, lambda m, x, **k: m.a_weighting(x, **k), 1, 22050)
  add("hwr", psy, lambda m, x, **k: m.hwr(x, **k), -2, 2)
  add("hwr-th", psy, lambda m, x, **k: m.hwr(x, th=.5, **k), -2, 2)
  for mode in ("peak", "range", "rms"):
    add(f"normalize-{mode}", dsp, lambda m, x, mode=mode, **k: m.normalize(x, mode=mode, **k), .5, 2, scalar=False)
  add("db2a", dsp, lambda m, x, **k: m.db2a(x, **k), -100, 20)
  add("a2db", dsp, lambda m, x, **k: m.a2db(x, **k), 1e-3, 10)
  add("a2db-floor", dsp, lambda m, x, **k: m.a2db(x, floor=1e-2, **k), 0, 10)
  add("a2db-floordb", dsp, lambda m, x, **k: m.a2db(x, floor=-40., floor_db=True, **k), 0, 10)
  add("a2db.floorless", dsp, lambda m, x, **k: m.a2db.floorless(x, **k), 1e-3, 10)
  add("a2db.floored", dsp, lambda m, x, **k: m.a2db.floored(x, .125, **k), 0, 10)
  add("complex2db", dsp, lambda m, x, **k: m.complex2db(x, **k), 1e-3, 10)
  add("complex2db-floor", dsp, lambda m, x, **k: m.complex2db(x, floor=.25, **k), 0, 10)
  add("expi", dsp, lambda m, x, **k: m.expi(x, **k), -10, 10, alias=False, dtype=complex)
  add("bin2f", dsp, lambda m, x, **k: m.bin2f(x, nfft=64, fs=44100, **k), 0, 100)
  return d


def one(ctx, name, n=2):
  mod, call, lo, hi, alias, scalar, dtype = specs()[name]
  m = ctx.mod(mod)
  v = ctx.reals("x", n, lo, hi)
  if name in ("normalize-range", "normalize-rms"):
    ctx.assume(v[1] - v[0] >= .01)
  x = ctx.arr(v, float)
  kw = {"dtype": complex} if dtype is complex else {}
  want = call(m, x, **kw)
  ctx.eq(x, ctx.arr(v, float), "the input is not modified", tol=0)
  ctx.check(ctx.np.shape(want) == (n,), "shape of the result")
  ref = [want[i] for i in range(n)]
  buf = ctx.arr([7.] * n, dtype)
  got = call(m, x, out=buf)
  ctx.cover("buffer")
  ctx.check(got is buf, "the buffer is returned")
  for i in range(n):
    ctx.eq(buf[i], ref[i], "values in the buffer")
  ctx.eq(x, ctx.arr(v, float), "the input is not modified when a buffer is given", tol=0)
  if alias:
    ctx.cover("alias")
    y = ctx.arr(v, float)
    got = call(m, y, out=y)
    ctx.check(got is y, "the input is returned as the buffer")
    for i in range(n):
      ctx.eq(y[i], ref[i], "values when the buffer is the input")
  if scalar:
    ctx.cover("scalar")
    s = call(m, v[0], **kw)
    ctx.check(ctx.np.ndim(s) == 0 and not isinstance(s, ctx.np.ndarray), "a scalar input gives a scalar")
    ctx.eq(s, ref[0], "scalar result")
    b0 = ctx.np.empty((), dtype=dtype)
    got = call(m, v[0], out=b0)
    ctx.check(got is b0, "a scalar buffer is returned")
    ctx.eq(b0[()], ref[0], "value in the scalar buffer")


def gamma(ctx, what, analytic=False, order=2, normalize=False, n=2):
  psy = ctx.mod("sample.psycho")
  b, tc, f, phi, a = ctx.real("b", .1, 10), ctx.real("tc", .1, 3), ctx.real("f", .1, 10), ctx.real("phi", -4, 4), ctx.real("a", .1, 4)
  v = ctx.reals("t", n, 0, 4)
  g = psy.GammatoneFilter(f=f, n=order, bandwidth=b, t_c=tc, phi=phi, a=a, normalize=normalize)
  kw = {"analytic": True} if analytic else {}
  t = ctx.arr(v, float)
  if what == "ir":
    call = lambda t, **k: g.ir(t=t, **kw, **k)
  else:
    call = lambda t, **k: getattr(g, what)(t, **kw, **k)
  want = call(t)
  ref = [want[i] for i in range(n)]
  ctx.eq(t, ctx.arr(v, float), "the input is not modified", tol=0)
  buf = ctx.arr([7.] * n, complex if analytic else float)
  ctx.cover("buffer")
  ctx.check(call(t, out=buf) is buf, "the buffer is returned")
  for i in range(n):
    ctx.eq(buf[i], ref[i], "values in the buffer")
  ctx.eq(t, ctx.arr(v, float), "the input is not modified when a buffer is given", tol=0)
  if not analytic and what == "envelope":
    ctx.cover("alias")
    y = ctx.arr(v, float)
    ctx.check(call(y, out=y) is y, "the input is returned as the buffer")
    for i in range(n):
      ctx.eq(y[i], ref[i], "values when the buffer is the input")
  if not normalize and not analytic and what == "envelope":
    ctx.cover("scalar")
    s = call(v[0])
    ctx.check(ctx.np.ndim(s) == 0 and not isinstance(s, ctx.np.ndarray), "a scalar input gives a scalar")
    ctx.eq(s, ref[0], "scalar result")


def hinge(ctx, n=2):
  h = ctx.mod("sample.hinge")
  a, k, q = ctx.real("a", 0, 10), ctx.real("k", -50, 0), ctx.real("q", -90, 0)
  v = ctx.reals("x", n, 0, 20)
  x = ctx.arr(v, float)
  want = h.hinge_function(x, a, k, q)
  ref = [want[i] for i in range(n)]
  ctx.eq(x, ctx.arr(v, float), "the input is not modified", tol=0)
  buf = ctx.arr([7.] * n, float)
  ctx.cover("buffer")
  ctx.check(h.hinge_function(x, a, k, q, out=buf) is buf, "the buffer is returned")
  for i in range(n):
    ctx.eq(buf[i], ref[i], "values in the buffer")
    ctx.eq(ref[i], k * ctx.ite(v[i] < a, v[i], a) + q, "hinge value")
  ctx.eq(x, ctx.arr(v, float), "the input is not modified when a buffer is given", tol=0)
  ctx.cover("alias")
  ctx.check(h.hinge_function(x, a, k, q, out=x) is x, "the input is returned as the buffer")
  for i in range(n):
    ctx.eq(x[i], ref[i], "values when the buffer is the input")
  ctx.cover("scalar")
  s = h.hinge_function(v[0], a, k, q)
  ctx.check(ctx.np.ndim(s) == 0 and not isinstance(s, ctx.np.ndarray), "a scalar input gives a scalar")
  ctx.eq(s, ref[0], "scalar result")


def energy(ctx, n=2):
  smp = ctx.mod("sample.sample")
  av, dv = ctx.reals("a", n, 0, 4), ctx.reals("d", n, .01, 4)
  a, d = ctx.arr(av, float), ctx.arr(dv, float)
  want = smp.modal_energy(a, d)
  for i in range(n):
    ctx.eq(want[i], dv[i] * av[i] * av[i] / 4, "energy of a mode", tol=1e-6)
  ref = [want[i] for i in range(n)]
  buf = ctx.arr([7.] * n, float)
  ctx.cover("buffer")
  ctx.check(smp.modal_energy(a, d, out=buf) is buf, "the buffer is returned")
  for i in range(n):
    ctx.eq(buf[i], ref[i], "values in the buffer")
  ctx.eq(a, ctx.arr(av, float), "amplitudes are not modified", tol=0)
  ctx.eq(d, ctx.arr(dv, float), "decays are not modified", tol=0)
  ctx.cover("alias")
  ctx.check(smp.modal_energy(a, d, out=a) is a, "the input is returned as the buffer")
  for i in range(n):
    ctx.eq(a[i], ref[i], "values when the buffer is the input")
  ctx.eq(d, ctx.arr(dv, float), "decays are not modified", tol=0)
  ctx.cover("scalar")
  s = smp.modal_energy(av[0], dv[0])
  ctx.check(ctx.np.ndim(s) == 0 and not isinstance(s, ctx.np.ndarray), "a scalar input gives a scalar")
  ctx.eq(s, ref[0], "scalar result")


def maxima(ctx, n=3, given=False):
  dsp = ctx.mod("sample.utils.dsp")
  v = ctx.reals("x", n, -2, 2)
  x = ctx.arr(v, float)
  want = dsp.local_maxima(x, w=1)
  ref = [want[i] for i in range(n)]
  ctx.eq(x, ctx.arr(v, float), "the input is not modified", tol=0)
  buf = ctx.arr([True, False, True][:n] + [True] * (n - 3), bool)
  ctx.cover("buffer")
  got = dsp.local_maxima(x, w=1, out=buf)
  ctx.check(got is buf, "the buffer is returned")
  for i in range(n):
    ctx.check(bool(buf[i]) == bool(ref[i]), "values in the buffer")
  ctx.eq(x, ctx.arr(v, float), "the input is not modified when a buffer is given", tol=0)


def configs(tier):
  q = [(k, one, dict(name=k)) for k in specs()]
  q += [("hinge", hinge, {}), ("energy", energy, {}), ("maxima", maxima, {})]
  for w in ("envelope", "wavefun", "ir"):
    q.append((f"gamma-{w}", gamma, dict(what=w)))
    if w != "envelope":
      q.append((f"gamma-{w}-an", gamma, dict(what=w, analytic=True)))
  q.append(("gamma-ir-norm", gamma, dict(what="ir", normalize=True)))
  if tier == "thorough":
    q += [(k + "3", one, dict(name=k, n=3)) for k in specs()]
    q += [("maxima5", maxima, dict(n=5)), ("gamma-env3", gamma, dict(what="envelope", order=4))]
  return q
