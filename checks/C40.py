"""C40 length of gammatone impulse responses"""
import math
PI = math.pi
BOUNDS = ("time of the -60 dB level: any strictly decreasing envelope after its peak (values at every point probed are arbitrary), 0..3 search steps (5 thorough), "
          "1..3 restarts, search range given or not, filter orders 1..4; first-order filters with their real envelope, three bandwidths and 4..12 steps; number of samples: every phase, leading time and level time at three frequencies and sample rates")
OUTSIDE = "the number of steps needed for an accurate time; floating-point rounding"
ASSUMPTIONS = ["envelopes of higher order are strictly decreasing and positive after the peak (stand-in)", "bandwidth > 0"]
COVERS = {"found", "restarted", "no range", "inaccurate", "default range", "first order", "size"}


def search(ctx, n, steps, starts, rng, warn):
  psy = ctx.mod("sample.psycho")
  b = ctx.real("b", .5, 100)
  tc = ctx.real("tc", -.5, .5)
  pts = []
  peak = (n - 1) / (2 * PI * b) - tc
  E = ctx.real("peak", 1, 10)
  floor = -20

  class G(psy.GammatoneFilter):

    def envelope(self, t, out=None, **kwargs):
      if bool(t == peak) or (n == 1 and bool(abs(t - peak) < 1e-9)):
        return E
      for p, v in pts:
        if p is t or bool(p == t):
          return v
      v = ctx.real(f"e{len(pts)}", 1e-3, 10)
      ctx.assume(ctx.Or(ctx.Not(t > peak), v < E))
      for p, w in pts:
        ctx.assume(ctx.Or(ctx.Not(ctx.And(t > p, p > peak)), v < w))
        ctx.assume(ctx.Or(ctx.Not(ctx.And(t < p, t > peak)), v > w))
      pts.append((t, v))
      return v

  g = G(f=100., n=n, bandwidth=b, t_c=tc)
  kw = {}
  if rng:
    kw["initial_range"] = R = ctx.real("range", .01, 1)
  else:
    ctx.cover("default range")
    R = None
  th = None
  if warn:
    th = ctx.real("th", .01, 10)
  r, e = ctx.raises(lambda: g.t60(steps=steps, n_starts=starts, floor=floor, warn_th=th, **kw), Exception)
  if not pts:
    return
  level = E * 10 ** (floor / 20)
  if isinstance(e, ValueError):
    ctx.cover("no range")
    far = ctx.And(*[v > level for _, v in pts])
    ctx.check(far, "refused only when the level is not reached within the searched range")
    ctx.check(len(pts) >= starts, "every restart is tried")
    return
  if e is None:
    ctx.check(r >= peak, "after the peak")
    ctx.cover("found")
    # bracket
    last = [p for p, v in pts]
    if len(pts) > steps + 2:
      ctx.cover("restarted")
    lo, hi = None, None
    ok = False
    allp = [(peak, E)] + pts
    if R is not None:
      width = R * 2 ** (starts - 1)
      rad = width / 2 ** (steps + 1) + 1e-9
      for i, (p, v) in enumerate(allp):
        for q, w in allp:
          ok = ctx.Or(ok, ctx.And(p <= q, v >= level - 1e-9, w <= level + 1e-9, p - r <= rad, r - p <= rad, q - r <= rad, r - q <= rad))
      ctx.check(ok, "the level is crossed within the resolution of the search")
    if warn:
      fr = [v for p, v in allp if p is r or bool(p == r)]
      if fr:
        d = ctx.fn("a2db")(fr[0] / E) - floor
        ctx.check(ctx.And(d <= th + 1e-6, d >= -th - 1e-6), "within the requested accuracy")
    return
  if warn:
    ctx.cover("inaccurate")
    bad = [ctx.fn("a2db")(v / E) - floor for p, v in pts]
    w = False
    for d in bad:
      w = ctx.Or(w, d > th - 1e-6, d < -th + 1e-6)
    ctx.check(w, "refused only when inaccurate")
  else:
    ctx.fail("nothing else is refused")


def first(ctx, steps):
  """first-order filters: the envelope is an exponential from its onset"""
  psy = ctx.mod("sample.psycho")
  b = ctx.choice("bandwidth", [.5, 32., 2000.])
  kw = {}
  tc = ctx.choice("leading", [0., .125])
  if tc:
    kw["t_c"] = tc
  floor = ctx.choice("floor", [-60, -20])
  g = psy.GammatoneFilter(f=100., n=1, bandwidth=b, **kw)
  t, e = ctx.raises(lambda: g.t60(steps=steps, floor=floor, warn_th=None), ValueError)
  ctx.check(e is None, "a level is found")
  if e is not None:
    return
  ctx.cover("first order")
  true = -floor * math.log(10) / 20 / (2 * PI * b) - tc
  # default range: at most doubled until the level is passed
  rad = 16 / b / 2 ** (steps + 1)
  ctx.check(ctx.And(t - true <= rad, true - t <= rad), "time of the level")


def size(ctx, how):
  psy = ctx.mod("sample.psycho")
  f = ctx.choice("freq", [25., 440., 12345.])
  phi = ctx.real("phi", -10, 10)
  tc = ctx.real("tc", -2, 2) / f
  T = ctx.real("T", -1, 4) / f
  fs = ctx.choice("rate", [1000., 44100, 96000]) if how != "d" else 1
  asked = []

  class G(psy.GammatoneFilter):

    def t60(self, *a, **k):
      asked.append(k)
      return T

  g = G(f=f, n=2, bandwidth=10., t_c=tc, phi=phi)
  k = ctx.int("k", -40, 40)
  q = (phi + 2 * PI * f * T) * 2 / PI
  ctx.assume(ctx.And(k - 1 + 1e-4 < q, q < k - 1e-4))
  end = (k * PI / 2 - phi) / (2 * PI * f)
  m = ctx.int("m", -12 * int(fs / f + 1), 12 * int(fs / f + 1))
  p = (end + tc) * fs
  ctx.assume(ctx.And(m + 1e-4 < p, p < m + 1 - 1e-4))
  s = g.ir_size(**({} if how == "d" else dict(fs=fs)), steps=3)
  if not asked:
    return
  ctx.cover("size")
  ctx.check(asked[-1] == {"steps": 3}, "options reach the search")
  ctx.check(s == m, "samples up to the first quarter turn after the level")


def configs(tier):
  q = tier != "thorough"
  S = (0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 5)
  for s in S:
    for st in (1, 2, 3):
      if s + st > (4 if q else 6):
        continue
      for rng in (True, False):
        yield f"search{s}_{st}_{rng}", search, dict(n=2, steps=s, starts=st, rng=rng, warn=False)
  for n in (1, 3, 4):
    yield f"order{n}", search, dict(n=n, steps=1, starts=2, rng=False, warn=False)
  for s in (0, 1, 2):
    yield f"warn{s}", search, dict(n=2, steps=s, starts=1, rng=True, warn=True)
  for s in (4, 8) if q else (4, 8, 12):
    yield f"first{s}", first, dict(steps=s)
  for h in ("fs", "d"):
    yield f"size{h}", size, dict(how=h)
