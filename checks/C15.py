"""C15 beat model against the sum of two partials"""
import math
BOUNDS = "one or two instants of a beat of two partials; every amplitude, positive decay, frequency, phase and time"
OUTSIDE = "instants at which the two partials cancel exactly (the frequency is not defined there); time-varying frequencies and phases; the quadrature between samples beyond the trapezoidal rule"
ASSUMPTIONS = ["the partials do not cancel at the instants considered"]
COVERS = {"constant", "decaying", "phase", "derivative", "callable", "no derivative"}
OPTS = {"trig_split": True, "exp_split": True, "lin": True, "poly_limit": 100000, "qt": 3000, "ct": 20000}


def half(ctx, f, p, t):
  """cos and sin of 2 pi f t + p through half angles"""
  h = math.pi * f * t + p / 2
  c, s = ctx.fn("cos")(h), ctx.fn("sin")(h)
  return c * c - s * s, 2 * s * c


def oracle(ctx, a, da, f, p, t):
  """sum of two partials and its derivative"""
  x = y = dx = dy = 0.
  for i in range(2):
    c, s = half(ctx, f[i], p[i], t)
    w = 2 * math.pi * f[i]
    x, y = x + a[i] * c, y + a[i] * s
    dx, dy = dx + da[i] * c - a[i] * w * s, dy + da[i] * s + a[i] * w * c
  return x, y, dx, dy


def params(ctx, pos=False):
  a = [ctx.real(f"a{i}", .01 if pos else -10, 10) for i in range(2)]
  return a, ctx.reals("f", 2, -20, 20), ctx.reals("p", 2, -7, 7)


def modulation(ctx, decaying, nt=1):
  bd = ctx.mod("sample.beatsdrop")
  a, f, p = params(ctx)
  ts = ctx.reals("t", nt, 0, 2)
  if decaying:
    d = ctx.reals("d", 2, .1, 10)
    b = bd.ModalBeat(a0=a[0], a1=a[1], f0=f[0], f1=f[1], d0=d[0], d1=d[1], p0=p[0], p1=p[1])
    ctx.cover("decaying")
  else:
    b = bd.Beat(a0=a[0], a1=a[1], f0=f[0], f1=f[1], p0=p[0], p1=p[1])
    ctx.cover("constant")
  ora = []
  for t in ts:
    if decaying:
      at = [a[i] * ctx.fn("exp")(-2 * t / d[i]) for i in range(2)]
      da = [-2 / d[i] * at[i] for i in range(2)]
    else:
      at, da = a, [0., 0.]
    o = oracle(ctx, at, da, f, p, t)
    ctx.assume(o[0] * o[0] + o[1] * o[1] > 1e-3)
    ora.append(o)
  ta = ctx.arr(ts, float)
  am, fm = b.compute(ta, ("am", "fm"))
  for j, (x, y, dx, dy) in enumerate(ora):
    ctx.eq(am[j] * am[j], x * x + y * y, "squared amplitude modulation is the squared modulus of the sum")
    ctx.check(am[j] >= 0, "a modulus is not negative")
    ctx.eq(fm[j] * (x * x + y * y), x * dy - y * dx, "frequency modulation is the derivative of the phase of the sum")
  ctx.eq(ta, ctx.arr(ts, float), "time is not modified", tol=0)


def phase(ctx, decaying):
  bd = ctx.mod("sample.beatsdrop")
  a, f, p = params(ctx)
  t1 = ctx.real("t", .001, 1)
  if decaying:
    d = ctx.reals("d", 2, .1, 10)
    b = bd.ModalBeat(a[0], a[1], f[0], f[1], d[0], d[1], p[0], p[1])
  else:
    b = bd.Beat(a[0], a[1], f[0], f[1], p[0], p[1])
  x, y = oracle(ctx, a, [0., 0.], f, p, 0.)[:2]
  ctx.assume(x * x + y * y > 1e-3)
  am, pm, xx = b.compute(ctx.arr([0.], float), ("am", "pm", "x"))
  ctx.cover("phase")
  ctx.check(len(pm) == len(xx) == 1, "one value per instant")
  r = am[0]
  ctx.eq(ctx.fn("cos")(pm[0]) * r, x, "cosine of the initial phase")
  ctx.eq(ctx.fn("sin")(pm[0]) * r, y, "sine of the initial phase")
  ctx.eq(xx[0], x, "the signal is the real part of the sum at time zero")
  del t1


def integral(ctx):
  """the phase advances by the integral of the frequency"""
  bd = ctx.mod("sample.beatsdrop")
  a, f, p = params(ctx, pos=True)
  t = ctx.real("t", .001, 1)
  b = bd.Beat(a[0], a[1], f[0], f[1], p[0], p[1])
  for tt in (0., t):
    x, y = oracle(ctx, a, [0., 0.], f, p, tt)[:2]
    ctx.assume(x * x + y * y > 1e-3)
  pm, fm = b.compute(ctx.arr([0., t], float), ("pm", "fm"))
  ctx.eq(pm[1] - pm[0], t * (fm[0] + fm[1]) / 2, "phase increment by the trapezoidal rule")


def decay(ctx, n):
  bd = ctx.mod("sample.beatsdrop")
  a, d, t = ctx.real("a", -10, 10), ctx.real("d", .01, 100), ctx.reals("t", n, 0, 10)
  e = bd.ExponentialDecay(a, d)
  ta = ctx.arr(t, float)
  y, dy = e(ta), e.dt(ta)
  ctx.cover("derivative")
  for i in range(n):
    v = a * ctx.fn("exp")(-2 / d * t[i])
    ctx.eq(y[i], v, "decaying amplitude")
    ctx.eq(dy[i], -2 / d * v, "derivative of the amplitude")
  out = ctx.np.zeros(n)
  r = e.dt(ta, out=out)
  ctx.check(r is out, "the derivative is written in the buffer")
  ctx.eq(out, dy, "the derivative is written in the buffer", tol=0)
  ctx.eq(ta, ctx.arr(t, float), "time is not modified", tol=0)


def functions(ctx):
  """amplitudes given as functions of time with their derivative"""
  bd = ctx.mod("sample.beatsdrop")
  _, f, p = params(ctx)
  v, dv = ctx.reals("v", 2, -10, 10), ctx.reals("dv", 2, -10, 10)

  def fun(i):

    def g(t):
      return ctx.arr([v[i]], float)

    g.dt = lambda t: ctx.arr([dv[i]], float)
    return g

  t = ctx.real("t", 0, 2)
  x, y, dx, dy = oracle(ctx, v, dv, f, p, t)
  ctx.assume(x * x + y * y > 1e-3)
  x0, y0 = oracle(ctx, v, dv, f, p, 0.)[:2]
  ctx.assume(x0 * x0 + y0 * y0 > 1e-3)
  b = bd.Beat(fun(0), fun(1), f[0], f[1], p[0], p[1])
  am, fm = b.compute(ctx.arr([t], float), ("am", "fm"))
  ctx.cover("callable")
  ctx.eq(am[0] * am[0], x * x + y * y, "squared amplitude modulation")
  ctx.eq(fm[0] * (x * x + y * y), x * dy - y * dx, "frequency modulation")
  _, e = ctx.raises(lambda: bd.Beat(a0=lambda t: t), AttributeError)
  ctx.check(e is not None, "an amplitude function without derivative is refused")
  ctx.cover("no derivative")


def configs(tier):
  q = [("const", modulation, dict(decaying=False), OPTS), ("decay", modulation, dict(decaying=True), OPTS),
       ("const2", modulation, dict(decaying=False, nt=2), OPTS),
       ("phasec", phase, dict(decaying=False), OPTS), ("phased", phase, dict(decaying=True), OPTS),
       ("integral", integral, {}, OPTS), ("expdecay", decay, dict(n=2)), ("functions", functions, {}, OPTS)]
  if tier == "thorough":
    q += [("decay2", modulation, dict(decaying=True, nt=2), OPTS), ("expdecay5", decay, dict(n=5))]
  return q
