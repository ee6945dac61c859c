"""C24 triangular filterbank"""
BOUNDS = "3..5 corner frequencies (6 thorough) in increasing order, given or spaced (1..3 filters), any bandwidths, 2 arbitrary evaluation frequencies; mel-spectrogram of 2 bins by 1 frame"
OUTSIDE = "floating-point rounding, coincident corners"
ASSUMPTIONS = ["the transformation to the perceptual scale is an increasing function with its inverse"]
COVERS = {"inside", "outside", "bandwidth", "spaced", "refused", "melspec"}


def tri(ctx, x, l, c, r):
  up, dn = (x - l) / (c - l), (r - x) / (r - c)
  return ctx.ite(ctx.Or(x <= l, x >= r), 0., ctx.ite(x < c, up, dn))


def judge(ctx, F, xs, corners):
  """F: filter x frequency against (left, centre, right) of every filter"""
  ctx.check(ctx.np.shape(F) == (len(corners), len(xs)), "one row per filter, one column per frequency")
  for i, (l, c, r) in enumerate(corners):
    for j, x in enumerate(xs):
      v = F[i, j]
      ctx.implies(ctx.Or(x <= l, x >= r), abs(v) <= 1e-9, "zero outside the corner frequencies")
      ctx.check(ctx.And(v >= -1e-9, v <= 1 + 1e-9), "values are within 0 and 1")
      ctx.implies(ctx.And(x >= l, x <= c), abs(v * (c - l) - (x - l)) <= 1e-6, "rises linearly to one at the centre")
      ctx.implies(ctx.And(x >= c, x <= r), abs(v * (r - c) - (r - x)) <= 1e-6, "falls linearly to zero")


def corners(ctx, n, nf=2):
  psy = ctx.mod("sample.psycho")
  c = ctx.reals("c", n, 10, 20000)
  for a, b in zip(c, c[1:]):
    ctx.assume(b - a >= 1)
  xs = ctx.reals("f", nf, 0, 22050)
  x = ctx.arr(xs, float)
  F, cf = psy.mel_triangular_filterbank(x, flim=ctx.arr(c, float))
  ctx.check(len(cf) == n - 2, "number of centre frequencies")
  for i in range(n - 2):
    ctx.eq(cf[i], c[i + 1], "centre frequencies are the inner corners")
  judge(ctx, F, xs, list(zip(c, c[1:], c[2:])))
  for j, v in enumerate(xs):
    inside = ctx.And(v >= c[1], v <= c[-2])
    s = 0
    for i in range(n - 2):
      s = s + F[i, j]
    ctx.implies(inside, abs(s - 1) <= 1e-6, "filters sum to one between the first and the last centre")
  ctx.cover("inside" if bool(ctx.And(xs[0] > c[0], xs[0] < c[-1])) else "outside")
  ctx.eq(x, ctx.arr(xs, float), "the frequency axis is not modified", tol=0)


def bandwidth(ctx, n, nf=2, number=None, mel=False):
  """with a bandwidth function, filters are centred at the given frequencies"""
  psy = ctx.mod("sample.psycho")
  xs = ctx.reals("f", nf, 0, 22050)
  x = ctx.arr(xs, float)
  bs = ctx.reals("b", n, 1, 5000)
  if number is None:
    c = ctx.reals("c", n, 10, 20000)
    for a, b in zip(c, c[1:]):
      ctx.assume(b - a >= 1)
  else:
    lo, hi = ctx.real("lo", 10, 1000), ctx.real("hi", 2000, 20000)
    c = None if mel else [lo + (hi - lo) * (i + 1) / (n + 1) for i in range(n)]
  seen = []

  def bw(f):
    seen.append(f)
    return bs[len(seen) - 1]

  if number is None:
    F, cf = psy.mel_triangular_filterbank(x, flim=ctx.arr(c, float), bandwidth=bw)
  elif mel:
    F, cf = psy.mel_triangular_filterbank(x, n_filters=n, flim=(lo, hi), bandwidth=bw)
    t0, t1 = psy.hz2mel(lo), psy.hz2mel(hi)
    for i in range(n):
      ctx.eq(psy.hz2mel(cf[i]), t0 + (t1 - t0) * (i + 1) / (n + 1), "centre frequencies are equally spaced on the mel scale", tol=1e-6)
    c = cf
  else:
    F, cf = psy.mel_triangular_filterbank(x, n_filters=n, flim=(lo, hi), bandwidth=bw, freq_transform=(lambda v: v * 2 + 1, lambda v: (v - 1) / 2))
  ctx.cover("bandwidth")
  ctx.check(len(seen) == n and len(cf) == n, "one bandwidth per filter")
  for i in range(n):
    ctx.eq(seen[i], c[i], "bandwidth at the centre frequency", tol=1e-6)
    ctx.eq(cf[i], c[i], "centre frequency", tol=1e-6)
  judge(ctx, F, xs, [(f - b, f, f + b) for f, b in zip(c, bs)])


def spaced(ctx, n, scale):
  """a number of filters: corners equally spaced on the transformed scale"""
  psy = ctx.mod("sample.psycho")
  xs = ctx.reals("f", 2, 0, 22050)
  if scale == "axis":
    ctx.assume(xs[1] - xs[0] >= 100)
    lo, hi = xs
    kw = {}
  else:
    lo, hi = ctx.real("lo", 10, 1000), ctx.real("hi", 2000, 20000)
    kw = {"flim": (lo, hi)}
  x = ctx.arr(xs, float)
  ctx.cover("spaced")
  if scale == "mel":
    F, cf = psy.mel_triangular_filterbank(x, n_filters=n, **kw)
    t0, t1 = psy.hz2mel(lo), psy.hz2mel(hi)
    ctx.check(len(cf) == n, "number of centre frequencies")
    last = lo
    for i in range(n):
      ctx.eq(psy.hz2mel(cf[i]), t0 + (t1 - t0) * (i + 1) / (n + 1), "centre frequencies are equally spaced on the mel scale", tol=1e-6)
      ctx.lt(last, cf[i], "centre frequencies increase")
      last = cf[i]
    ctx.lt(last, hi, "centre frequencies are within the limits")
    ctx.check(ctx.np.shape(F) == (n, 2), "shape")
    for i in range(n):
      for j in range(2):
        ctx.check(ctx.And(F[i, j] >= 0, F[i, j] <= 1), "values are within 0 and 1")
  else:
    F, cf = psy.mel_triangular_filterbank(x, n_filters=n, freq_transform=(lambda v: v * 3 - 2, lambda v: (v + 2) / 3), **kw)
    c = [lo + (hi - lo) * i / (n + 1) for i in range(n + 2)]
    for i in range(n):
      ctx.eq(cf[i], c[i + 1], "centre frequencies are equally spaced", tol=1e-6)
    judge(ctx, F, xs, list(zip(c, c[1:], c[2:])))


def refused(ctx):
  psy = ctx.mod("sample.psycho")
  x = ctx.arr(ctx.reals("f", 2, 0, 1000), float)
  a = ctx.real("a", 1, 10)
  for kw in ({}, {"flim": (a, a + 1)}, {"flim": (a,)}, {"n_filters": 0}):
    _, e = ctx.raises(lambda: psy.mel_triangular_filterbank(x, **kw), ValueError)
    ctx.check(e is not None, "no filters")
  ctx.cover("refused")


def melspec(ctx, power):
  """magnitudes to the power are combined by the filters, and the inverse power is taken"""
  psy = ctx.mod("sample.psycho")
  re, im = ctx.reals("re", 2, -2, 2), ctx.reals("im", 2, -2, 2)
  w = ctx.reals("w", 2, 0, 1)
  fr = ctx.arr([0., 100.], float)
  X = (ctx.arr(re, complex) + 1j * ctx.arr(im, complex)).reshape((2, 1))
  Y, cf = psy.stft2mel(X, fr, filterbank=ctx.arr([w], float), power=power)
  ctx.cover("melspec")
  ctx.check(cf is None, "no centre frequencies for a given filterbank")
  ctx.check(ctx.np.shape(Y) == (1, 1), "shape")
  y = Y[0, 0]
  p2 = [a * a + b * b for a, b in zip(re, im)]
  if power is None:
    ctx.eq(y.real, w[0] * re[0] + w[1] * re[1], "filtered spectrum")
    ctx.eq(y.imag, w[0] * im[0] + w[1] * im[1], "filtered spectrum")
  elif power == 2:
    ctx.check(y >= 0, "magnitude")
    ctx.eq(y * y, w[0] * p2[0] + w[1] * p2[1], "filtered power spectrum", tol=1e-6)
  else:
    ctx.eq(y, w[0] * ctx.fn("sqrt")(p2[0]) + w[1] * ctx.fn("sqrt")(p2[1]), "filtered magnitude spectrum", tol=1e-6)
  for i in range(2):
    ctx.eq(X[i, 0].real, re[i], "the spectrum is not modified", tol=0)
    ctx.eq(X[i, 0].imag, im[i], "the spectrum is not modified", tol=0)


def computed(ctx):
  """a filterbank computed on the fly is that of the given arguments"""
  psy = ctx.mod("sample.psycho")
  c = ctx.reals("c", 3, 10, 2000)
  ctx.assume(ctx.And(c[1] - c[0] >= 1, c[2] - c[1] >= 1))
  re = ctx.reals("re", 2, -2, 2)
  fs = ctx.reals("f", 2, 0, 3000)
  fr = ctx.arr(fs, float)
  X = ctx.arr(re, complex).reshape((2, 1))
  Y, cf = psy.stft2mel(X, fr, power=None, flim=ctx.arr(c, float))
  ctx.eq(cf[0], c[1], "centre frequency")
  ctx.eq(Y[0, 0].real, re[0] * tri(ctx, fs[0], *c) + re[1] * tri(ctx, fs[1], *c), "filtered spectrum", tol=1e-6)


def configs(tier):
  N = (3, 4, 5) if tier != "thorough" else (3, 4, 5, 6)
  big = tier == "thorough"
  q = [(f"corners{n}", corners, dict(n=n, nf=2 if n == 3 or big else 1)) for n in N]
  q += [(f"bandwidth{n}", bandwidth, dict(n=n, nf=2 if n == 1 or big else 1)) for n in (1, 2, 3)]
  q += [(f"bandwidthn{n}", bandwidth, dict(n=n, number=n)) for n in (1, 2)]
  q += [(f"bandwidthmel{n}", bandwidth, dict(n=n, nf=1, number=n, mel=True)) for n in (1, 2)]
  q += [(f"spaced{s}{n}", spaced, dict(n=n, scale=s)) for s in ("mel", "axis", "given") for n in ((1, 2) if not big else (1, 2, 3))]
  q += [("refused", refused, {}), ("computed", computed, {})]
  q += [(f"melspec{p}", melspec, dict(power=p)) for p in (None, 1, 2)]
  return q
