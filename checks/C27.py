"""C27 onset selection"""
BOUNDS = "signals of 3..6 samples (7 thorough), radius 1..2, multiplier 1..2; every signal, mask, feedback coefficient and threshold"
OUTSIDE = "longer signals, radius 0, the first samples where the average window is not complete (only the necessary conditions are checked there)"
COVERS = {"maximum", "not a maximum", "and", "key", "selected", "none selected", "positions", "flux"}


def maxima(ctx, n, w, land=False, key=False, conv=None):
  dsp = ctx.mod("sample.utils.dsp")
  v = ctx.reals("x", n, -2, 2)
  k = ctx.reals("k", n, -2, 2) if key else v
  x = ctx.arr(v, float)
  kw = {}
  if key:
    kw["key"] = ctx.arr(k, float)
    ctx.cover("key")
  if land:
    m = ctx.bools("m", n)
    buf = ctx.arr(m, bool)
    r = dsp.local_maxima(x, w=w, logical_and=True, out=buf, **kw)
    ctx.check(r is buf, "the mask is returned")
    ctx.cover("and")
  else:
    m = [True] * n
    r = dsp.local_maxima(x, w=w, **kw)
  ctx.check(ctx.np.shape(r) == (n,), "one value per sample")
  for i in range(n):
    want = i >= w and i < n - w
    if want:
      for j in range(i - w, i + w + 1):
        want = ctx.And(want, v[i] >= k[j])
      want = ctx.And(want, m[i])
    got = r[i]
    ctx.check(ctx.And(ctx.Or(ctx.Not(got), want), ctx.Or(got, ctx.Not(want))), "local maxima are the samples not exceeded within the radius, and in the mask")
    if i == w:
      ctx.cover("maximum" if bool(want) else "not a maximum")
  ctx.eq(x, ctx.arr(v, float), "the signal is not modified", tol=0)


def average(ctx, y, i, w, m):
  s = 0
  for j in range(i - m * w, i + w + 1):
    s = s + y[j]
  return s / ((m + 1) * w + 1)


def conds(ctx, v, y, w, m, alpha, delta):
  """for every sample: necessary condition, whether it is also sufficient"""
  n = len(v)
  g = []
  for a in y:
    p = g[-1] if g else 0
    h = alpha * p + (1 - alpha) * a
    g.append(ctx.ite(a >= h, a, h))
  out = []
  for i in range(n):
    if i < w or i >= n - w:
      out.append((False, True))
      continue
    c = y[i] >= g[i - 1] - 1e-9
    s = y[i] >= g[i - 1] + 1e-9
    for j in range(i - w, i + w + 1):
      c = ctx.And(c, v[i] >= v[j])
      s = ctx.And(s, v[i] >= v[j])
    if i >= m * w:
      th = average(ctx, y, i, w, m) + delta
      c = ctx.And(c, y[i] >= th - 1e-9)
      s = ctx.And(s, y[i] >= th + 1e-9)
    else:
      s = False
    out.append((c, s))
  return out


def selection(ctx, n, w, m, idx, scale=None, alpha=None):
  """scale: stand-in for the normalisation (any affine one has the same structure)"""
  dsp = ctx.mod("sample.utils.dsp")
  v = ctx.reals("x", n, -2, 2)
  if alpha is None:
    alpha = ctx.real("alpha", 0, 1)
  delta = ctx.real("delta", -2, 3)
  x = ctx.arr(v, float)
  hit = []
  if scale is not None:
    real = dsp.normalize

    def norm(a, *args, mode="peak", out=None, **kw):
      if mode != "rms" or args or out is not None:
        return real(a, *args, mode=mode, out=out, **kw)
      hit.append(1)
      return a * scale[0] + scale[1]

    ctx.patch(dsp, "normalize", norm)
  ons = dsp.onset_selection(x, w=w, m=m, alpha=alpha, delta=delta)
  ctx.check(ctx.np.shape(ons) == (n,), "one value per sample")
  if hit:
    y = [a * scale[0] + scale[1] for a in v]
  else:
    if scale is not None:
      ctx.patch(dsp, "normalize", real)
    y = dsp.normalize(ctx.arr(v, float), mode="rms")
  cs = conds(ctx, v, [y[i] for i in range(n)], w, m, alpha, delta)
  for i in range(n):
    nec, suf = cs[i]
    if i in idx or nec is False:
      ctx.check(ctx.Or(ctx.Not(ons[i]), nec), "onsets are local maxima not below the average and the decaying threshold")
      if suf is not False and nec is not False:
        ctx.check(ctx.Or(ons[i], ctx.Not(suf)), "such samples are onsets")
  s = False
  for i in range(n):
    s = ctx.Or(s, ons[i])
  ctx.cover("selected" if bool(s) else "none selected")
  ctx.eq(x, ctx.arr(v, float), "the signal is not modified", tol=0)


def positions(ctx, n, size):
  """onsets of the detection function are mapped onto the signal"""
  dsp = ctx.mod("sample.utils.dsp")
  f = ctx.arr(ctx.reals("f", n, -2, 2), float)
  x = ctx.np.zeros(size)
  delta = ctx.real("delta", -2, 3)
  seen = []

  def fn(a, **kw):
    seen.append((a, kw))
    return f

  r = dsp.onset_detection(x, detection_fn=fn, w=1, m=1, alpha=.5, delta=delta, extra=3)
  ctx.check(len(seen) == 1 and seen[0][0] is x and seen[0][1] == {"extra": 3}, "the detection function gets the signal and its arguments")
  s = dsp.onset_selection(f, w=1, m=1, alpha=.5, delta=delta)
  ctx.check(ctx.np.shape(r) == (size,), "one value per sample of the signal")
  ctx.cover("positions")
  for i in range(size):
    want = False
    for k in range(n):
      if k * size // n == i:
        want = ctx.Or(want, s[k])
    ctx.check(bool(r[i]) == bool(want), "onset positions")


def flux(ctx, nf, nt, via):
  dsp = ctx.mod("sample.utils.dsp")
  re, im = ctx.reals("re", nf * nt, -2, 2), ctx.reals("im", nf * nt, -2, 2)
  X = (ctx.arr(re, complex) + 1j * ctx.arr(im, complex)).reshape((nf, nt))
  if via == "tf":
    r = dsp.spectral_flux_from_tf(X)
  else:
    seen = []

    def tf(x, **kw):
      seen.append((x, kw))
      return None, None, X

    sig = ctx.arr([0.], float)
    r = dsp.spectral_flux(sig, tf_fn=tf, extra=1)
    ctx.check(len(seen) == 1 and seen[0][0] is sig and seen[0][1] == {"extra": 1}, "the transform gets the signal and its arguments")
  ctx.check(ctx.np.shape(r) == (nt - 1,), "one value per time step")
  ctx.cover("flux")
  mag = [[ctx.fn("sqrt")(re[i * nt + j] ** 2 + im[i * nt + j] ** 2) for j in range(nt)] for i in range(nf)]
  for j in range(nt - 1):
    s = 0
    for i in range(nf):
      d = mag[i][j + 1] - mag[i][j]
      s = s + ctx.ite(d > 0, d, 0)
    ctx.eq(r[j], s, "sum of the positive magnitude increments", tol=1e-6)
  for i in range(nf * nt):
    ctx.eq(X[i // nt, i % nt].real, re[i], "the transform is not modified", tol=0)


def configs(tier):
  big = tier == "thorough"
  q = []
  for n, w in ((3, 1), (5, 1), (5, 2), (6, 2)) + (((7, 1), (7, 2), (7, 3)) if big else ()):
    q += [(f"max{n}{w}", maxima, dict(n=n, w=w)), (f"maxand{n}{w}", maxima, dict(n=n, w=w, land=True)), (f"maxkey{n}{w}", maxima, dict(n=n, w=w, key=True))]
  q.append(("maxandkey", maxima, dict(n=4, w=1, land=True, key=True)))
  S = [(3, 1, 1), (4, 1, 1), (5, 1, 2), (6, 2, 1)] + ([(5, 1, 1), (6, 1, 2), (7, 2, 1), (7, 1, 2)] if big else [])
  for n, w, m in S:
    q += [(f"sel{n}{w}{m}-{i}", selection, dict(n=n, w=w, m=m, idx=(i,), scale=(.5, -.25)), {"lin": True}) for i in range(w, n - w)]
    q += [(f"sel{n}{w}{m}-{i}a{a}", selection, dict(n=n, w=w, m=m, idx=(i,), scale=(2., .5), alpha=a), {"lin": True}) for i in range(w, n - w) for a in (0., .75, 1.)]
  q += [("selnorm", selection, dict(n=3, w=1, m=1, idx=(1,)), {"lin": True})]
  q += [(f"pos{n}-{s}", positions, dict(n=n, size=s), {"lin": True}) for n, s in ((3, 3), (3, 7), (4, 2))]
  q += [(f"flux{a}{b}{v}", flux, dict(nf=a, nt=b, via=v), {"lin": True}) for a, b, v in ((1, 2, "tf"), (2, 3, "tf"), (2, 2, "fn"))]
  return q
