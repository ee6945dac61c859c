"""C25 spectral losses"""
from checks import C23
BOUNDS = "spectra of 2 bins (3 thorough), every pair; exponents 1 and 2 (the norm itself also 3 and 4); every floor and weight; 1..3 scales, serial and pooled; cochleagrams of one two-tap filter on signals of 1..2 samples"
OUTSIDE = "the transform itself (scipy.signal.stft is replaced by an arbitrary function of the signal), other exponents, real process pools"
ASSUMPTIONS = ["scipy.signal.stft depends on its arguments only", "pools run each job once and return its result"]
COVERS = {"lp", "loss", "floor", "serial", "pool", "njobs", "cochleagram", "default scales"}


def lp_spec(ctx, u, v, p):
  s = 0
  for a, b in zip(u, v):
    d = abs(a - b)
    s = s + (d if p == 1 else d * d)
  return s if p == 1 else ctx.fn("sqrt")(s)


def power(x, p):
  r = x
  for _ in range(int(p) - 1):
    r = r * x
  return r


def lp(ctx, p, n):
  met = ctx.mod("sample.evaluation.metrics")
  u, v = ctx.reals("u", n, -2, 2), ctx.reals("v", n, -2, 2)
  x, y = ctx.arr(u, float), ctx.arr(v, float)
  d = met.lp_distance(x, y, p=p)
  ctx.cover("lp")
  ctx.check(d >= 0, "not negative")
  ctx.eq(met.lp_distance(y, x, p=p), d, "symmetric")
  ctx.eq(met.lp_distance(x, ctx.arr(u, float), p=p), 0, "zero for identical vectors")
  ctx.eq(met.lp_distance(x, x, p=p), 0, "zero for the same vector")
  s = 0
  for a, b in zip(u, v):
    e = abs(a - b)
    s = s + power(e, p)
  ctx.eq(power(d, p), s, "norm of the difference", tol=1e-6)
  ctx.eq(x, ctx.arr(u, float), "inputs are not modified", tol=0)
  ctx.eq(y, ctx.arr(v, float), "inputs are not modified", tol=0)
  same = u[0] == v[0]
  for a, b in zip(u[1:], v[1:]):
    same = ctx.And(same, a == b)
  ctx.implies(ctx.Not(same), d > 0, "positive for different vectors")


def patch_stft(ctx, table):
  """scipy.signal.stft as a table from the signal's first value to its spectrum"""
  import scipy.signal
  log = []

  def stft(x, *a, **kw):
    log.append((x, a, kw))
    for k, spec in table:
      if x is k:
        return None, None, ctx.arr(spec[0], complex).reshape((-1, 1)) + 1j * ctx.arr(spec[1], complex).reshape((-1, 1))
    raise AssertionError("unknown signal")

  ctx.patch(scipy.signal, "stft", stft)
  met = ctx.mod("sample.evaluation.metrics")
  if getattr(met, "stft", None) is not None:
    ctx.patch(met, "stft", stft)
  return log


def loss(ctx, p, n, alpha, real=False):
  met = ctx.mod("sample.evaluation.metrics")
  s1 = (ctx.reals("ur", n, -2, 2), ctx.reals("ui", n, -2, 2) if not real else [0.] * n)
  s2 = (ctx.reals("vr", n, -2, 2), ctx.reals("vi", n, -2, 2) if not real else [0.] * n)
  x, y, x2 = ctx.arr([1., 2.], float), ctx.arr([3., 4.], float), ctx.arr([1., 2.], float)
  log = patch_stft(ctx, [(x, s1), (y, s2), (x2, s1)])
  fdb = ctx.real("floor", -90, -2)
  kw = dict(norm_p=p, floor_db=fdb, n=64, wsize=32, olap=.75)
  if alpha:
    al = ctx.real("alpha", 0, 10)
    kw["alpha"] = al
  else:
    al = 1 / (0 - fdb)
  d = met.lin_log_spectral_loss(x, y, **kw)
  ctx.cover("loss")
  ctx.check(d >= 0, "not negative")
  e = met.lin_log_spectral_loss(y, x, **kw)
  ctx.eq(e, d, "symmetric", tol=1e-9)
  ctx.eq(met.lin_log_spectral_loss(x, x, **kw), 0, "zero for the same signal")
  ctx.eq(met.lin_log_spectral_loss(x, x2, **kw), 0, "zero for identical signals")
  sq = ctx.fn("sqrt")
  mag = [[abs(a) for a in s[0]] if real else [sq(a * a + b * b) for a, b in zip(*s)] for s in (s1, s2)]
  fl = ctx.fn("db2a")(fdb)
  lvl = [[ctx.fn("a2db")(ctx.ite(m < fl, fl, m)) for m in ms] for ms in mag]
  lin, lg = lp_spec(ctx, *mag, p), lp_spec(ctx, *lvl, p)
  ctx.eq(d, lin + al * lg, "linear plus weighted logarithmic distance", tol=1e-6)
  low = True
  for ms in mag:
    for m in ms:
      low = ctx.And(low, m <= fl)
  ctx.implies(low, abs(d - lin) <= 1e-6, "no logarithmic distance below the floor")
  ctx.cover("floor")
  kws = [k for _, _, k in log]
  ctx.check(len(log) % 2 == 0 and len(log) >= 2, "both signals are transformed")
  for k in kws:
    ctx.check(k.get("nfft") == 64 and k.get("nperseg") == 32 and k.get("noverlap") == 24 and ctx.np.size(k.get("window")) == 32,
              "both signals are transformed with the requested analysis")


class Res:

  def __init__(self, f):
    self.f = f

  def get(self, timeout=None):
    return self.f()


def multi(ctx, k, how, fn):
  """sum over the scales, whatever the schedule"""
  met = ctx.mod("sample.evaluation.metrics")
  vals = ctx.reals("l", k, 0, 100)
  extra = ctx.real("extra", -5, 5)
  x, y = ctx.arr([1., 2.], float), ctx.arr([3., 4.], float)
  log = []

  def base(a, b, n=None, extra=None):
    log.append((a, b, n, extra))
    return vals[n]

  class Pool:
    """runs jobs at submission or at retrieval"""
    closed = False

    def __init__(self, processes=None, *a, **kw):
      self.n = processes

    def apply_async(self, f, args=(), kwds={}, *a, **kw):
      if how == "eager":
        r = f(*args, **kwds)
        return Res(lambda: r)
      return Res(lambda: f(*args, **kwds))

    def __enter__(self):
      return self

    def __exit__(self, *e):
      Pool.closed = True

  kw = {}
  if how in ("eager", "lazy"):
    kw["pool"] = Pool()
    ctx.cover("pool")
  elif how == "njobs":
    if hasattr(met, "mp"):
      ctx.patch(met.mp, "Pool", Pool)
    import multiprocessing
    ctx.patch(multiprocessing, "Pool", Pool)
    kw["njobs"] = 2
    ctx.cover("njobs")
  else:
    ctx.cover("serial")
  stfts = [{"n": i} for i in range(k)]
  if fn:
    r = met.multiscale_spectral_loss(x, y, spectral_loss=base, stfts=stfts, extra=extra, **kw)
  else:
    r = met.MultiScaleSpectralLoss(base, stfts)(x, y, extra=extra, **kw)
  s = 0
  for v in vals:
    s = s + v
  ctx.eq(r, s, "sum of the losses at every scale", tol=1e-6)
  ctx.check(sorted(n for _, _, n, _ in log) == list(range(k)), "each scale is computed once")
  for a, b, _, e in log:
    ctx.check(a is x and b is y and e is extra, "arguments of the losses")
  if how == "njobs":
    ctx.check(Pool.closed, "the pool is closed")


def scales(ctx):
  """default scales and default loss"""
  met = ctx.mod("sample.evaluation.metrics")
  x, y = ctx.arr([1., 2.], float), ctx.arr([3., 4.], float)
  s1, s2 = ([ctx.real("u", 0, 2)], [0.]), ([ctx.real("v", 0, 2)], [0.])
  log = patch_stft(ctx, [(x, s1), (y, s2)])
  r = met.multiscale_spectral_loss(x, y)
  one = met.lin_log_spectral_loss(x, y)
  ctx.eq(r, one * 6, "sum over six scales", tol=1e-6)
  ns = [k["nfft"] for _, _, k in log[:-2]]
  ctx.check(sorted(ns) == sorted(2 * [64, 128, 256, 512, 1024, 2048]), "scales")
  ctx.cover("default scales")


def cochlea(ctx, n, p, stride=None):
  met = ctx.mod("sample.evaluation.metrics")
  C23.patch_conv(ctx)
  fb, irs = C23.bank(ctx, (2,), (0,), True)
  u, v = ctx.reals("u", n, -2, 2), ctx.reals("v", n, -2, 2)
  x, y = ctx.arr(u, float), ctx.arr(v, float)
  L = met.CochleagramLoss(fs=1., filters=list(fb), p=p, stride=stride)
  d = L(x, y)
  ctx.cover("cochleagram")
  ctx.check(d >= 0, "not negative")
  ctx.eq(L(y, x), d, "symmetric")
  ctx.eq(L(x, ctx.arr(u, float)), 0, "zero for identical signals")
  s = stride or 1
  w = [C23.spec(q, irs[0], 0, n + 1)[::s] for q in (u, v)]
  sq = ctx.fn("sqrt")
  m = [[sq(a * a + b * b) for a, b in q] for q in w]
  ctx.eq(d, lp_spec(ctx, *m, p), "distance of the envelopes", tol=1e-6)


def configs(tier):
  N = (2,) if tier != "thorough" else (2, 3)
  q = [(f"lp{p}-{n}", lp, dict(p=p, n=n)) for p in (1, 2) for n in N]
  q += [(f"lp{p}-{n}", lp, dict(p=p, n=n)) for p in (3, 4) for n in ((1, 2) if tier == "thorough" else (1,))]
  q += [(f"loss{p}-{n}{'a' if a else ''}{'r' if r else ''}", loss, dict(p=p, n=n, alpha=a, real=r)) for p in (1, 2) for n in ((1, 2) if tier != "thorough" else (1, 2, 3))
        for a in (False, True) for r in (True, False) if n == 1 or r or tier == "thorough"]
  q += [(f"multi{k}{h}{'f' if f else ''}", multi, dict(k=k, how=h, fn=f)) for k in (1, 3) for h in ("serial", "eager", "lazy", "njobs") for f in (False, True)]
  q += [("scales", scales, {})]
  q += [(f"cochlea{n}{p}{s}", cochlea, dict(n=n, p=p, stride=s), {"lin": True}) for n, p, s in ((1, 1, None), (1, 2, None), (2, 1, 2))]
  return q
