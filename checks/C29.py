"""C29 dichotomic search"""
BOUNDS = "0..4 steps (6 thorough; up to 8 for functions with a single zero); any function values at the points probed, any limits in either order"
OUTSIDE = "discontinuous functions, underflow of the product of the values at the limits"
ASSUMPTIONS = ["a continuous function vanishes between two points where its signs differ"]
COVERS = {"found", "refused", "exact", "reversed"}


def search(ctx, steps, rev):
  dsp = ctx.mod("sample.utils.dsp")
  a, b = ctx.real("a", -100, 100), ctx.real("b", -100, 100)
  ctx.assume(b - a >= .5)
  lo, hi = (b, a) if rev else (a, b)
  if rev:
    ctx.cover("reversed")
  pts = []

  def f(x):
    # equal points give equal values
    for p, v in pts:
      if p is x or bool(p == x):
        return v
    v = ctx.real(f"f{len(pts)}", -10, 10)
    pts.append((x, v))
    return v

  kw = {} if steps is None else {"steps": steps}
  r, e = ctx.raises(lambda: dsp.dychotomic_zero_crossing(f, lo, hi, **kw), ValueError)
  fa, fb = f(a), f(b)
  if e is not None:
    ctx.cover("refused")
    ctx.check(fa * fb > 0, "refused only when the signs agree")
    return
  ctx.check(fa * fb <= 0, "refused when the signs agree")
  ctx.cover("found")
  ctx.check(ctx.And(r >= a, r <= b), "the result is between the limits")
  n = 16 if steps is None else steps
  rad = (b - a) / 2 ** (n + 1) + 1e-9
  near = [ctx.And(p - r <= rad, r - p <= rad) for p, _ in pts]
  ok = False
  for i, (p, v) in enumerate(pts):
    ok = ctx.Or(ok, ctx.And(near[i], v == 0))
    for j in range(i):
      ok = ctx.Or(ok, ctx.And(near[i], near[j], v * pts[j][1] < 0))
  ctx.check(ok, "a sign change is within the resolution of the search")
  if len(pts) < n + 2:
    z = False
    for _, v in pts:
      z = ctx.Or(z, v == 0)
    ctx.check(z, "the search stops early only on an exact zero")
    ctx.cover("exact")


def linear(ctx, steps, rev, up):
  """a function with one zero: the result is near it"""
  dsp = ctx.mod("sample.utils.dsp")
  z = ctx.real("z", -50, 50)
  lo, hi = (60., -52.) if rev else (-52., 60.)
  s = 1 if up else -1
  calls = []

  def f(x):
    calls.append(x)
    return s * (x - z)

  kw = {} if steps is None else {"steps": steps}
  r = dsp.dychotomic_zero_crossing(f, lo, hi, **kw)
  n = 16 if steps is None else steps
  ctx.cover("found")
  d = r - z
  rad = 112. / 2 ** (n + 1) + 1e-9
  ctx.check(ctx.And(d <= rad, d >= -rad), "the result is within the resolution of the zero")
  ctx.check(len(calls) <= n + 2, "number of evaluations")


def configs(tier):
  N = (0, 1, 2, 3, 4) if tier != "thorough" else (0, 1, 2, 3, 4, 5, 6)
  q = [(f"search{n}{r}", search, dict(steps=n, rev=r)) for n in N for r in (False, True)]
  q += [(f"linear{n}{r}{u}", linear, dict(steps=n, rev=r, up=u)) for n in (2, 5) + ((8,) if tier == "thorough" else ()) for r in (False, True) for u in (False, True)]
  return q
