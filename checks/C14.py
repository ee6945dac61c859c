"""C14 additive synthesis"""
import math
BOUNDS = "0..3 modes (quick), 0..5 (thorough) at 1..3 instants; every frequency, positive decay, amplitude, phase and instant (also before the onset)"
OUTSIDE = "more modes or instants; rounding; infinite decays"
COVERS = {"real", "analytic", "phases", "nophases", "random", "unknown", "split", "permuted"}


def params(ctx, n):
  return ctx.reals("f", n, 0, 20000), ctx.reals("d", n, .01, 100), ctx.reals("a", n, -10, 10), ctx.reals("p", n, -7, 7)


def check(ctx, y, t, f, d, a, p, analytic, msg):
  nt = len(t)
  ctx.check(tuple(ctx.np.shape(y)) == (() if nt == 1 else (nt,)), "one value per instant")
  ctx.check((ctx.np.asarray(y).dtype.kind == "c") == analytic, "complex exactly when analytic")
  y = ctx.np.reshape(y, (-1,))
  for j in range(nt):
    re = im = 0.
    for i in range(len(f)):
      g = a[i] * ctx.fn("exp")(-2 * t[j] / d[i])
      w = 2 * math.pi * f[i] * t[j] + p[i]
      re, im = re + g * ctx.fn("cos")(w), im + g * ctx.fn("sin")(w)
    ctx.eq(y[j].real, re, msg)
    if analytic:
      ctx.eq(y[j].imag, im, msg + " (imaginary part)")


def h(ctx, n, nt, analytic=False, phases=True, kind="array"):
  smp = ctx.mod("sample.sample")
  f, d, a, p = params(ctx, n)
  t = ctx.reals("t", nt, -1, 10)
  mk = {"array": lambda v: ctx.arr(v, float), "list": list}[kind]
  fa, da, aa, pa, ta = mk(f), mk(d), mk(a), mk(p), mk(t)
  kw = dict(phases=pa) if phases else {}
  if analytic:
    kw["analytic"] = True
  y = smp.additive_synth(ta, fa, da, aa, **kw)
  ctx.cover("analytic" if analytic else "real")
  ctx.cover("phases" if phases else "nophases")
  check(ctx, y, t, f, d, a, p if phases else [0.] * n, analytic, "sum of damped oscillations")
  for u, v in ((fa, f), (da, d), (aa, a), (pa, p), (ta, t)):
    ctx.eq(u, mk(v), "inputs are not modified", tol=0)


def linear(ctx, analytic=False):
  """permuting or splitting the modes"""
  smp = ctx.mod("sample.sample")
  f, d, a, p = params(ctx, 3)
  t = ctx.arr(ctx.reals("t", 2, -1, 10), float)
  A = lambda v, ix: ctx.arr([v[i] for i in ix], float)
  syn = lambda ix: smp.additive_synth(t, A(f, ix), A(d, ix), A(a, ix), phases=A(p, ix), analytic=analytic)
  whole = syn([0, 1, 2])
  ctx.eq(syn([2, 0, 1]), whole, "order of the modes is irrelevant")
  ctx.cover("permuted")
  ctx.eq(syn([1]) + syn([0, 2]), whole, "groups of modes add up")
  ctx.cover("split")


def random_phases(ctx, n):
  smp = ctx.mod("sample.sample")
  f, d, a, p = params(ctx, n)
  t = ctx.reals("t", 1, -1, 10)
  asked = []

  class Rng:

    def uniform(self, low=0., high=1., size=None):
      asked.append((low, high, size))
      return ctx.arr(p, float)

  y = smp.additive_synth(ctx.arr(t, float), ctx.arr(f, float), ctx.arr(d, float), ctx.arr(a, float), phases="random", rng=Rng())
  ctx.cover("random")
  if len(asked) == 1:
    ctx.eq(asked[0][0], 0., "phases from zero")
    ctx.eq(asked[0][1], 2 * math.pi, "to a whole turn")
    check(ctx, y, t, f, d, a, p, False, "random phases are used as phases")
  _, e = ctx.raises(lambda: smp.additive_synth(ctx.arr(t, float), ctx.arr(f, float), ctx.arr(d, float), ctx.arr(a, float), phases="nope"),
                    ValueError)
  ctx.check(e is not None, "unknown option is refused")
  ctx.cover("unknown")


def configs(tier):
  q = [("n2t2", h, dict(n=2, nt=2)), ("n2t2a", h, dict(n=2, nt=2, analytic=True)), ("n3t1", h, dict(n=3, nt=1)),
       ("n3t1np", h, dict(n=3, nt=1, phases=False)), ("n2t1npa", h, dict(n=2, nt=1, phases=False, analytic=True)),
       ("n1t3", h, dict(n=1, nt=3)), ("n1t1", h, dict(n=1, nt=1)), ("n0t2", h, dict(n=0, nt=2)), ("n0t2np", h, dict(n=0, nt=2, phases=False)),
       ("n2t2l", h, dict(n=2, nt=2, kind="list")), ("n3t3", h, dict(n=3, nt=3)),
       ("linear", linear, {}), ("lineara", linear, dict(analytic=True)), ("random", random_phases, dict(n=2))]
  if tier == "thorough":
    q += [("n5t2", h, dict(n=5, nt=2)), ("n4t3a", h, dict(n=4, nt=3, analytic=True)), ("n5t1np", h, dict(n=5, nt=1, phases=False)), ("random4", random_phases, dict(n=4))]
  return q
