"""C36 gammatone impulse responses and filterbank layout"""
import math

PI = math.pi
BOUNDS = "filter order 1..4 (6 thorough), 1..2 time instants (3 thorough), every real centre frequency, bandwidth, leading time, phase, scale (given, computed by a function, or left out); banks of 1..3 filters (4 thorough) with any limits; exponentials overflow above e^710 as in double precision"
OUTSIDE = "floating-point rounding and underflow; the length of an impulse response (its -60 dB time, C29) is a stand-in when the time axis is generated"
ASSUMPTIONS = ["bandwidth > 0"]
COVERS = {"before", "onset", "after", "cosine", "analytic", "normalised", "scaled", "out given", "default t_c", "function", "group delay set", "generated axis",
          "spaced", "count", "freqs given", "whole numbers", "filters given", "no axis"}


def param(ctx, name, lo, hi, none=True):
  """(argument, its value or None): left out, a value or a function of the filter"""
  k = ctx.choice(name + "_how", ["value", "function"] + (["none"] if none else []))
  if k == "none":
    return None, None
  v = ctx.real(name, lo, hi)
  if k == "value":
    return v, v
  ctx.cover("function")
  return (lambda flt: v + 0 * flt.f), v


def env_at(ctx, t, tc, n, b):
  u = t + tc
  p = 1
  for _ in range(n - 1):
    p = p * u
  if bool(u < 0):
    ctx.cover("before")
    return 0
  ctx.cover("onset" if bool(u == 0) else "after")
  return p * ctx.fn("exp")(-2 * PI * b * u)


def envelope(ctx, n, nt, out, given, whole=False):
  psy = ctx.mod("sample.psycho")
  b = ctx.real("b", 0.01, 1000)
  f = ctx.real("f", 1, 20000)
  ts = ctx.reals("t", nt, -5, 5)
  kw = {}
  tc = (n - 1) / (2 * PI * b)
  if given:
    kw["t_c"] = tc = ctx.real("tc", -3, 3)
  g = psy.GammatoneFilter(f=f, n=n, bandwidth=b, **kw)
  if whole:
    ts = ctx.ints("k", nt, -5, 5)
    ctx.cover("whole numbers")
  t = ctx.arr(ts, int if whole else float)
  buf = ctx.arr([0.] * nt, float) if out else None
  r, exc = ctx.raises(lambda: g.envelope(t, **({"out": buf} if out else {})), TypeError, ValueError)
  ctx.check(exc is None, "no exception")
  if exc is not None:
    return
  if out:
    ctx.check(r is buf, "written in place")
  ctx.check(len(r) == nt, "one value per instant")
  for i in range(nt):
    ctx.check(ctx.Not(ctx.isnan(r[i])), "a number for every time")
    ctx.eq(r[i], env_at(ctx, ts[i], tc, n, b), "envelope")
    ctx.eq(t[i], ts[i], "time axis untouched", tol=0)


def wave(ctx, n, nt, analytic, norm, how):
  psy = ctx.mod("sample.psycho")
  np = ctx.np
  b = ctx.real("b", 0.01, 1000)
  f = ctx.real("f", 1, 20000)
  ts = ctx.reals("t", nt, -5, 5)
  tc = ctx.real("tc", -3, 3)
  for x in ts:
    ctx.assume(x + tc >= 0)
  if how == "phi":
    phi_arg, phi = param(ctx, "phi", -10, 10)
    a_arg, a = None, None
  else:
    phi_arg = phi = 0
    a_arg, a = param(ctx, "a", -10, 10)
  if phi is None:
    phi = -2 * PI * f * tc
  g = psy.GammatoneFilter(f=f, n=n, bandwidth=b, t_c=tc, phi=phi_arg, a=a_arg, normalize=norm)
  t = ctx.arr(ts, float)
  env = [env_at(ctx, x, tc, n, b) for x in ts]
  ang = [2 * PI * f * x + phi for x in ts]
  cos, sin = ctx.fn("cos"), ctx.fn("sin")
  buf = None
  if how == "out":
    buf = ctx.arr([0.] * nt, complex if analytic else float)
    ctx.cover("out given")
  r, exc = ctx.raises(lambda: g.ir(t, analytic=analytic, **({"out": buf} if buf is not None else {})), TypeError, ValueError)
  ctx.check(exc is None, "no exception")
  if exc is not None:
    return
  ctx.check(buf is None or r is buf, "written in place")
  ctx.check(len(r) == nt and np.iscomplexobj(r) == analytic, "one value per instant")
  if len(r) != nt or np.iscomplexobj(r) != analytic:
    return
  re = [env[i] * cos(ang[i]) for i in range(nt)]
  im = [env[i] * sin(ang[i]) for i in range(nt)]
  ctx.cover("analytic" if analytic else "cosine")
  if not norm:
    s = 1 if a is None else a
    if a is not None:
      ctx.cover("scaled")
    for i in range(nt):
      ctx.eq(np.real(r)[i], s * re[i], "impulse response")
      if analytic:
        ctx.eq(np.imag(r)[i], s * im[i], "impulse response, imaginary part")
    return
  e = sum(re[i] * re[i] + (im[i] * im[i] if analytic else 0) for i in range(nt))
  ctx.assume(e > 1e-6)
  k = (1 if a is None else a) / ctx.fn("sqrt")(e)
  for i in range(nt):
    ctx.eq(np.real(r)[i], k * re[i], "normalised impulse response")
    if analytic:
      ctx.eq(np.imag(r)[i], k * im[i], "normalised impulse response, imaginary part")
  ctx.cover("normalised")


def params(ctx, n):
  psy = ctx.mod("sample.psycho")
  f = ctx.real("f", 1, 20000)
  barg, b = param(ctx, "b", 0.01, 1000)
  targ, tc = param(ctx, "tc", -3, 3)
  parg, phi = param(ctx, "phi", -10, 10)
  aarg, a = param(ctx, "a", -10, 10)
  kw = {"f": f, "n": n, "bandwidth": barg, "t_c": targ, "phi": parg, "a": aarg}
  g = psy.GammatoneFilter(**{k: v for k, v in kw.items() if v is not None})
  b = psy.erb(f) if b is None else b
  ctx.eq(g.bandwidth, b, "bandwidth")
  raw = (n - 1) / (2 * PI * b)
  ctx.eq(g.raw_group_delay, raw, "group delay of the causal filter")
  if tc is None:
    tc = raw
    ctx.eq(g.group_delay, 0, "no group delay by default")
    ctx.cover("default t_c")
  ctx.eq(g.t_c, tc, "leading time")
  ctx.eq(g.group_delay, raw - tc, "group delay")
  ctx.eq(g.phi, -2 * PI * f * tc if phi is None else phi, "phase")
  ctx.eq(g.a, a, "scale")
  d = ctx.real("delay", -3, 3)
  g.group_delay = d
  ctx.eq(g.group_delay, d, "group delay is read back")
  ctx.eq(g.t_c, raw - d, "leading time after setting the group delay")
  ctx.cover("group delay set")
  if phi is None:
    ctx.eq(g.phi, -2 * PI * f * (raw - d), "phase follows the leading time")
  g.t_c = x = ctx.real("x", -3, 3)
  ctx.eq(g.t_c, x, "leading time is read back")
  ctx.eq(g.group_delay, raw - x, "group delay follows the leading time")
  g.phi = x
  g.a = d
  ctx.eq(g.phi, x, "phase is read back")
  ctx.eq(g.a, d, "scale is read back")
  g.bandwidth = y = ctx.real("y", 0.01, 1000)
  ctx.eq(g.bandwidth, y, "bandwidth is read back")
  ctx.eq(g.t_c, x, "leading time stays")


def axis(ctx, m):
  """time axis made from the sample rate"""
  psy = ctx.mod("sample.psycho")
  f, b, tc, fs = ctx.real("f", 1, 20000), ctx.real("b", 0.01, 1000), ctx.real("tc", 0, 3), ctx.real("fs", 1, 96000)
  g = psy.GammatoneFilter(f=f, n=2, bandwidth=b, t_c=tc, phi=0)
  asked = []

  def size(self, fs=1, **kw):
    asked.append((self, fs, kw))
    return m
  ctx.patch(psy.GammatoneFilter, "ir_size", size)
  _, exc = ctx.raises(lambda: g.ir(), ValueError)
  ctx.check(isinstance(exc, ValueError), "neither times nor sample rate")
  ctx.cover("no axis")
  r, exc = ctx.raises(lambda: g.ir(fs=fs, steps=3), ValueError, TypeError)
  ctx.check(exc is None, "no exception")
  if exc is not None:
    return
  if len(asked) != 1:
    return
  ctx.check(asked[0][0] is g and asked[0][2] == {"steps": 3}, "length is computed for this filter")
  ctx.eq(asked[0][1], fs, "length is computed at the sample rate", tol=0)
  ctx.check(len(r) == m, "length")
  cos = ctx.fn("cos")
  for i in range(m):
    t = i / fs - tc
    ctx.eq(r[i], (t + tc) * ctx.fn("exp")(-2 * PI * b * (t + tc)) * cos(2 * PI * f * t), "impulse response from its onset")
  ctx.cover("generated axis")


def bank(ctx, n, how, count):
  psy = ctx.mod("sample.psycho")
  lo, hi = ctx.real("lo", 10, 1000), ctx.real("hi", 1001, 20000)
  kw = {}
  if how == "linear":
    k, q = ctx.real("k", 0.1, 10), ctx.real("q", -5, 5)
    fw, bw = (lambda f: [k * x + q for x in f] if isinstance(f, (tuple, list)) else k * f + q), (lambda c: (c - q) / k)
    kw["freq_transform"] = ((lambda f: ctx.arr(fw(f), float)), bw)
  elif how == "bark":
    fw, bw = psy.hz2bark, psy.bark2hz
    kw["freq_transform"] = (fw, bw)
  else:
    fw, bw = psy.hz2cams, psy.cams2hz
  t0, t1 = fw(lo), fw(hi)
  if count:
    ctx.assume(ctx.And(2 * (t1 - t0) - 1 > n - 1, 2 * (t1 - t0) - 1 <= n))
    ctx.cover("count")
  else:
    kw["n_filters"] = n
  o = ctx.choice("order", [1, 3])
  fb, exc = ctx.raises(lambda: psy.GammatoneFilterbank(flim=(lo, hi), n=o, **kw), TypeError, ValueError)
  ctx.check(exc is None, "no exception")
  if exc is not None:
    return
  ctx.check(len(fb) == n and len(list(fb)) == n, "number of filters")
  if len(fb) != n:
    return
  step = (t1 - t0) / (n + 1)
  last = None
  for i, g in enumerate(fb):
    ctx.check(g is fb[i], "indexing")
    ctx.check(g.n == o, "filter parameters")
    c = fw(g.f)
    ctx.lt(lo, g.f, "above the lower limit")
    ctx.lt(g.f, hi, "below the upper limit")
    if last is not None:
      ctx.eq(c - last, step, "equally spaced on the transformed scale", tol=1e-6)
    last = c
  ctx.check(isinstance(fb.f, tuple) and len(fb.f) == n, "attributes of all filters")
  for i in range(n):
    ctx.eq(fb.f[i], fb[i].f, "attributes of all filters", tol=0)
  ctx.cover("spaced")


def explicit(ctx, n, how):
  psy = ctx.mod("sample.psycho")
  fs = ctx.reals("f", n, 1, 20000)
  if how == "freqs":
    b = ctx.real("b", 0.1, 100)
    fb = psy.GammatoneFilterbank(freqs=fs if ctx.choice("list", [True, False]) else ctx.arr(fs, float), bandwidth=b, n=2, n_filters=7)
    for i in range(n):
      ctx.eq(fb[i].bandwidth, b, "parameters", tol=0)
    ctx.cover("freqs given")
  else:
    gs = [psy.GammatoneFilter(f=x) for x in fs]
    fb = psy.GammatoneFilterbank(filters=iter(gs), freqs=[1.])
    for i in range(n):
      ctx.check(fb[i] is gs[i], "filters are used as given")
    ctx.cover("filters given")
  ctx.check(len(fb) == n, "number of filters")
  for i in range(n):
    ctx.eq(fb[i].f, fs[i], "frequencies in the order given", tol=0)


def configs(tier):
  q = tier == "quick"
  o = {"exp_overflow": True}
  for n in range(1, 5 if q else 7):
    for nt in (1, 2) if q else (1, 2, 3):
      for given in (False, True):
        yield f"envelope {n} {nt} {given}", envelope, dict(n=n, nt=nt, out=nt == 1, given=given), o
    yield f"envelope {n} whole", envelope, dict(n=n, nt=2, out=False, given=n % 2 == 0, whole=True), o
  for n in (1, 2, 4):
    for analytic in (False, True):
      for how in ("phi", "a", "out"):
        for norm in (False, True):
          nt = 2 if not norm or q else 3
          yield f"wave {n} {nt} analytic={analytic} norm={norm} {how}", wave, dict(n=n, nt=nt, analytic=analytic, norm=norm, how=how), o
  for n in (1, 2, 4):
    yield f"params {n}", params, dict(n=n)
  for m in (1, 2, 3):
    yield f"axis {m}", axis, dict(m=m)
  for n in (1, 2, 3) if q else (1, 2, 3, 4):
    for how in ("linear", "cams", "bark"):
      yield f"bank {n} {how}", bank, dict(n=n, how=how, count=False)
    yield f"bank count {n}", bank, dict(n=n, how="linear", count=True)
    for how in ("freqs", "filters"):
      yield f"explicit {n} {how}", explicit, dict(n=n, how=how)
