"""C11 hinge regression"""
import types
BOUNDS = "2..4 data points (quick), 2..6 (thorough) with every abscissa, ordinate and fitted slope and intercept; any solution"
OUTSIDE = "longer data; the optimiser itself (its result is an arbitrary point)"
ASSUMPTIONS = ["sklearn LinearRegression returns the exact least-squares line (full fits)"]
COVERS = {"bounds", "fit", "single abscissa", "flat", "eval"}


def inside(ctx, x0, b, x):
  lo, hi = b
  ctx.check(len(x0) == 3 and len(lo) == 3 and len(hi) == 3, "three coefficients")
  for c in range(3):
    ctx.check(lo[c] < hi[c], f"bounds of coefficient {c} are strictly ordered")
    ctx.check(ctx.And(lo[c] <= x0[c], x0[c] <= hi[c]), f"starting point of coefficient {c} within its bounds")
  mn = mx = x[0]
  for v in x[1:]:
    mn, mx = ctx.ite(v < mn, v, mn), ctx.ite(v > mx, v, mx)
  if mn < mx:
    ctx.check(ctx.And(lo[0] >= mn, hi[0] <= mx), "knee bounds within the data")
  else:
    ctx.cover("single abscissa")


def direct(ctx, n):
  """the default callables for an arbitrary linear estimate"""
  hinge = ctx.mod("sample.hinge")
  x, y = ctx.reals("x", n), ctx.reals("y", n)
  k, q = ctx.npreal("k"), ctx.npreal("q")
  r = hinge.HingeRegression()
  a, b = ctx.arr(x, float).reshape((-1, 1)), ctx.arr(y, float)
  inside(ctx, list(r.coeffs_init(a, b, k, q)), r.bounds(a, b, k, q), x)
  ctx.cover("bounds")
  if k == 0:
    ctx.cover("flat")


def short(ctx):
  hinge = ctx.mod("sample.hinge")
  r = hinge.HingeRegression()
  a, b = ctx.arr([ctx.real("x")], float).reshape((-1, 1)), ctx.arr([ctx.real("y")], float)
  _, e = ctx.raises(lambda: r.bounds(a, b, ctx.npreal("k"), ctx.npreal("q")), ValueError)
  ctx.check(e is not None, "one sample is refused")


def fit(ctx, n, flat=False):
  hinge = ctx.mod("sample.hinge")
  x, y = ctx.reals("x", n), ctx.reals("y", n)
  for i in range(n):
    for j in range(i):
      ctx.assume(x[i] != x[j])
  if flat:
    for v in y[1:]:
      ctx.assume(v == y[0])
  sol = ctx.reals("s", 3)
  calls = []

  def ls(fun, x0, *args, bounds=None, **kw):
    calls.append((fun, list(x0), bounds))
    return types.SimpleNamespace(x=ctx.arr(sol, float))

  ctx.patch(hinge.optimize, "least_squares", ls)
  r = hinge.HingeRegression()
  a, b = ctx.arr(x, float).reshape((-1, 1)), ctx.arr(y, float)
  ctx.check(r.fit(a, b) is r, "fitting returns the model")
  ctx.check(len(calls) == 1, "one optimisation")
  fun, x0, bnd = calls[0]
  inside(ctx, x0, bnd, x)
  ctx.cover("fit")
  at = ctx.arr(sol, float)
  # residuals are predictions minus observations
  p = ctx.reals("p", 3)
  res = fun(ctx.arr(p, float))
  for i in range(n):
    ctx.eq(res[i], p[1] * ctx.ite(x[i] < p[0], x[i], p[0]) + p[2] - y[i], "residual", tol=1e-9)
  ctx.eq(r.coeffs_, at, "coefficients of the optimiser", tol=0)
  ctx.same(r.a_, sol[0], "knee")
  ctx.same(r.k_, sol[1], "slope")
  ctx.same(r.q_, sol[2], "intercept")
  z = ctx.reals("z", 2)
  zz = ctx.arr(z, float)
  out = r.predict(zz)
  for i in range(2):
    ctx.eq(out[i], sol[1] * ctx.ite(z[i] < sol[0], z[i], sol[0]) + sol[2], "prediction", tol=1e-9)
  ctx.eq(zz, ctx.arr(z, float), "data not modified", tol=0)
  ctx.eq(a.reshape((-1,)), ctx.arr(x, float), "data not modified", tol=0)
  ctx.eq(b, ctx.arr(y, float), "data not modified", tol=0)
  ctx.cover("eval")


def custom(ctx):
  """user-supplied callables get the linear estimate of the attributes asked for"""
  hinge, base = ctx.mod("sample.hinge"), ctx.mod("sklearn.base")
  kq, x0, lo, hi = ctx.reals("kq", 2), ctx.reals("c", 3), ctx.reals("lo", 3), ctx.reals("hi", 3)
  for i in range(3):
    ctx.assume(ctx.And(lo[i] < x0[i], x0[i] < hi[i]))

  class Lin(base.BaseEstimator):

    def fit(self, x, y):
      self.kk, self.qq = ctx.arr([kq[0]], float), ctx.arr([kq[1]], float)
      return self

  got, calls = [], []

  def ls(fun, x0, *args, bounds=None, **kw):
    calls.append((list(x0), bounds, kw))
    return types.SimpleNamespace(x=ctx.arr(list(x0), float))

  ctx.patch(hinge.optimize, "least_squares", ls)
  r = hinge.HingeRegression(linear_regressor=Lin(), linear_regressor_k="kk", linear_regressor_q="qq", method="trf",
                            coeffs_init=lambda x, y, k, q: got.append((k, q)) or tuple(x0),
                            bounds=lambda x, y, k, q: got.append((k, q)) or (tuple(lo), tuple(hi)))
  nfev = ctx.int("nfev", 1)
  r.fit(ctx.arr(ctx.reals("x", 3), float).reshape((-1, 1)), ctx.arr(ctx.reals("y", 3), float), max_nfev=nfev)
  for k, q in got:
    ctx.eq(k, kq[0], "slope estimate", tol=0)
    ctx.eq(q, kq[1], "intercept estimate", tol=0)
  ctx.check(len(got) == 2 and len(calls) == 1, "the given callables are used")
  ctx.check(calls[0][2].get("method") == "trf", "given method")
  ctx.check(calls[0][2].get("max_nfev") is not None and bool(calls[0][2]["max_nfev"] == nfev), "other arguments reach the optimiser")
  for i in range(3):
    ctx.same(calls[0][0][i], x0[i], "given start")
    ctx.same(calls[0][1][0][i], lo[i], "given lower bound")
    ctx.same(calls[0][1][1][i], hi[i], "given upper bound")


def configs(tier):
  m = 4 if tier == "quick" else 6
  q = [(f"direct{n}", direct, dict(n=n)) for n in range(2, m + 1)]
  q += [(f"fit{n}", fit, dict(n=n)) for n in range(2, (3 if tier == "quick" else 5) + 1)]
  q += [("flat", fit, dict(n=2, flat=True)), ("short", short, {}), ("custom", custom, {})]
  return q
