"""C17 disambiguation and sorting of beat parameters"""
from checks.C16 import Result, patch_ls
BOUNDS = "every solution octuple with distinct frequencies, every modelled amplitude and frequency of the two alternatives at 1..2 instants; every octuple and sorting value"
OUTSIDE = "the optimisation itself; the beat model's modulations are arbitrary values per alternative (they are checked by another property)"
ASSUMPTIONS = ["the two frequencies of the solution differ"]
COVERS = {"kept", "exchanged", "disabled", "ascending", "descending"}
NAMES = ("a0", "a1", "f0", "f1", "d0", "d1", "p0", "p1")
SW = (0, 1, 3, 2, 4, 5, 7, 6)


def disambiguation(ctx, n, enabled=True, loss="default"):
  reg, bd = ctx.mod("sample.beatsdrop.regression"), ctx.mod("sample.beatsdrop")
  sol = (ctx.reals("a", 2, .001, 1) + ctx.reals("f", 2, 1, 1000) + ctx.reals("d", 2, .01, 10) + ctx.reals("p", 2, -3, 3))
  ctx.assume(sol[2] != sol[3])

  def ls(fun, x0, **kw):
    r = Result()
    r.x = ctx.arr(sol, float)
    r.fun = fun
    return r

  patch_ls(ctx, ls)
  am = [ctx.reals(f"am{h}_", n, 0, 1) for h in range(2)]
  fm = [ctx.reals(f"fm{h}_", n, -1000, 1000) for h in range(2)]
  real = bd.ModalBeat

  class Beat(real):

    def __init__(self, a0=1, a1=1, f0=.95, f1=1.05, d0=1, d1=1, p0=0, p1=0):
      self.given = (a0, a1, f0, f1, d0, d1, p0, p1)

    _graph = {}

    def am(self, t):
      return self.compute(t, "am")

    def fm(self, t):
      return self.compute(t, "fm")

    def which(self):
      return 0 if bool(self.given[2] == sol[2]) else 1

    def compute(self, t, output):
      if isinstance(output, str):
        return self.compute(t, (output,))[0]
      h = self.which()
      d = {"am": am[h], "fm": fm[h]}
      return [ctx.arr(list(d[k]), float) for k in output]

  ctx.patch(bd, "ModalBeat", Beat)
  at = ctx.reals("at", n, -60, 0)
  fr = ctx.reals("fr", n, 1, 1000)
  kw = {}
  if loss == "custom":
    kw = dict(freq_loss=lambda x, y: y - x, amp_loss=lambda x, y: x - y, freq_clip=None, freq_w=.5)
  m = reg.DualBeatRegression(params_init=lambda *a: (.5,) * 8, bounds=lambda *a: ((0.,) * 8, (1.,) * 8),
                             disambiguate=enabled, **kw)
  m.fit(ctx.arr([i / 8. for i in range(n)], float), ctx.arr(at, float), ctx.arr(fr, float))
  r = list(m.params_)
  ctx.check(len(r) == 8, "eight parameters")
  ctx.eq(ctx.arr(list(m.beat_.given), float), ctx.arr(r, float), "the fitted beat has the fitted parameters")
  if not enabled:
    ctx.cover("disabled")
    ctx.eq(ctx.arr(r, float), ctx.arr(sol, float), "solution is left as it is")
    return
  # loss of the two alternatives
  ctx.check(ctx.Or(ctx.And(*[r[i] == sol[i] for i in range(8)]), ctx.And(*[r[i] == sol[SW[i]] for i in range(8)])),
            "the solution, or the solution with the two frequency-phase pairs exchanged")
  tot = []
  for h in range(2):
    s = 0.
    for j in range(n):
      ea = ctx.fn("db2a")(at[j]) - am[h][j]
      f = fm[h][j] / (2 * 3.141592653589793)
      f = ctx.ite(f < 0, -f, f)
      ef = .5 * (f - fr[j])
      s = s + ea * ea + ef * ef
    tot.append(s)
  kept = bool(r[2] == sol[2])
  ctx.cover("kept" if kept else "exchanged")
  if loss == "custom":
    ctx.check(tot[0] <= tot[1] + 1e-9 if kept else tot[1] <= tot[0] + 1e-9, "the alternative with the smaller loss")


def sorting(ctx, key, array, descending):
  reg = ctx.mod("sample.beatsdrop.regression")
  p = ctx.reals("a", 2, -1, 1) + ctx.reals("f", 2, 1, 1000) + ctx.reals("d", 2, .01, 10) + ctx.reals("p", 2, -3, 3)
  kw = {}
  if key == "default":
    e = [p[0] * p[0] * p[4], p[1] * p[1] * p[5]]
  else:
    i = {"freq": 2, "decay": 4}[key]
    e = [p[i], p[i + 1]]
    kw["key"] = lambda q: tuple(q[i:i + 2])
  if descending is not None:
    kw["descending"] = descending
  given = ctx.arr(p, float) if array else tuple(p)
  r = list(reg.sort_params(given, **kw))
  ctx.cover("descending" if descending else "ascending")
  ctx.check(len(r) == 8, "eight parameters")
  sw = [p[i] for i in (1, 0, 3, 2, 5, 4, 7, 6)]
  same, exch = ctx.And(*[r[i] == p[i] for i in range(8)]), ctx.And(*[r[i] == sw[i] for i in range(8)])
  ctx.check(ctx.Or(same, exch), "the partials are kept or exchanged as a whole")
  big = (lambda x, y: x > y) if descending else (lambda x, y: x < y)
  ctx.implies(big(e[0], e[1]), same, "already in order")
  ctx.implies(big(e[1], e[0]), exch, "exchanged when in the wrong order")
  ctx.eq(ctx.arr(list(given), float), ctx.arr(p, float), "input is not modified", tol=0)


def configs(tier):
  o = dict(ct=30000)
  q = [("custom1", disambiguation, dict(n=1, loss="custom"), o), ("default2", disambiguation, dict(n=2)),
       ("off", disambiguation, dict(n=1, enabled=False))]
  if tier == "thorough":
    q.append(("custom2", disambiguation, dict(n=2, loss="custom"), o))
  q += [(f"sort-{k}-{'array' if a else 'tuple'}-{d}", sorting, dict(key=k, array=a, descending=d))
        for k in ("default", "freq", "decay") for a in (False, True) for d in (None, False, True)]
  return q
