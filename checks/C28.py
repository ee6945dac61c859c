"""C28 periodogram on the FFT grid and autocorrelogram"""
import math
BOUNDS = "FFT sizes 4..8 (16 thorough), every sample rate, high-pass and positive low-pass limit (given or not), signals of 1..3 samples at any times; autocorrelograms of 2..5 bins"
OUTSIDE = "the periodogram itself (scipy.signal.lombscargle is replaced by an arbitrary function of frequency), floating-point rounding of a limit that falls exactly on a bin"
ASSUMPTIONS = ["numpy's inverse transforms compute the inverse DFT sum"]
COVERS = {"band", "empty band", "no limits", "zero bin", "default size", "one-sided", "two-sided"}


def patch_ls(ctx, vals):
  import scipy.signal
  log = []

  def ls(x=None, y=None, freqs=None, *a, **kw):
    n = ctx.np.size(freqs)
    log.append((x, y, [freqs[i] for i in range(n)], a, kw))
    return ctx.arr(vals[:n], float)

  ctx.patch(scipy.signal, "lombscargle", ls)
  dsp = ctx.mod("sample.utils.dsp")
  if hasattr(dsp, "lombscargle"):
    ctx.patch(dsp, "lombscargle", ls)
  return log


def spectrum(ctx, nfft, hpf, lpf, nx=2):
  dsp = ctx.mod("sample.utils.dsp")
  fs = ctx.real("fs", 1, 1000)
  tv, xv = ctx.reals("t", nx, 0, 10), ctx.reals("x", nx, -2, 2)
  t, x = ctx.arr(tv, float), ctx.arr(xv, float)
  n = nfft // 2 + 1
  vals = ctx.reals("p", n, 0, 10)
  log = patch_ls(ctx, vals)
  kw = {}
  lo, hi = None, None
  if hpf:
    lo = ctx.real("lo", 0, 1)  # as a fraction of the sample rate
    kw["hpf"] = lo * fs
  if lpf:
    hi = ctx.real("hi", .001, 1)
    kw["lpf"] = hi * fs
  p, f = dsp.lombscargle_as_fft(t, x, nfft, fs=fs, normalize=True, **kw)
  ctx.check(ctx.np.shape(p) == (n,) and ctx.np.shape(f) == (n,), "one value per frequency from zero to Nyquist")
  for a in log:
    ctx.check(a[0] is t and a[1] is x and a[4] == {"normalize": True}, "arguments of the periodogram")
  cnt = 0
  for k in range(n):
    ctx.eq(f[k] * nfft, fs * k, "frequency of a bin", tol=1e-6)
    # limits that fall on a bin up to rounding are left out (a limit of zero is kept)
    for b in (lo, hi):
      if b is not None:
        ok = ctx.Or(b * nfft <= k - 1e-6, b * nfft >= k + 1e-6)
        ctx.assume(ok if k else ctx.Or(b == 0, ok))
    below = lo is not None and bool(lo * nfft > k)
    above = hi is not None and bool(hi * nfft <= k)
    if below or above:
      ctx.eq(p[k], 0, "bins outside the band are zero", tol=0)
      continue
    if k == 0:
      m = 0
      for v in xv:
        m = m + v
      ctx.eq(p[0], m * m / (nx * nx), "zero bin is the square of the mean", tol=1e-6)
      ctx.cover("zero bin")
      continue
    ctx.check(len(log) == 1 and cnt < len(log[0][2]), "the periodogram is computed in the band")
    ctx.eq(log[0][2][cnt], fs * (2 * math.pi * k / nfft), "the periodogram is computed at the frequency of the bin", tol=1e-6)
    ctx.eq(p[k], vals[cnt], "value of the periodogram", tol=0)
    cnt += 1
  if log:
    ctx.check(len(log[0][2]) == cnt, "the periodogram is computed in the band only")
  ctx.cover("band" if cnt else "empty band")
  if not hpf and not lpf:
    ctx.cover("no limits")


def idft(ctx, p, n, k):
  """k-th value of the inverse DFT of a one-sided spectrum for n points"""
  s = p[0]
  for i in range(1, len(p)):
    if 2 * i < n:
      s = s + 2 * p[i] * math.cos(2 * math.pi * i * k / n)
    elif 2 * i == n:
      s = s + p[i] * math.cos(math.pi * k)
  return s / n


def auto(ctx, m, n, nfft, power):
  dsp = ctx.mod("sample.utils.dsp")
  re, im = ctx.reals("re", m, -2, 2), ctx.reals("im", m, -2, 2)
  if power:
    a = ctx.arr(re, float)
    p = re
  else:
    a = ctx.arr(re, complex) + 1j * ctx.arr(im, complex)
    p = [x * x + y * y for x, y in zip(re, im)]
  r = dsp.fft2autocorrelogram(a, n=n, nfft=nfft, power=power)
  N = n or 2 * (m - 1)
  F = nfft or N
  if n is None:
    ctx.cover("default size")
  ctx.cover("one-sided")
  ctx.check(ctx.np.shape(r) == (min(N, F),), "requested length")
  pp = (list(p) + [0] * F)[:F // 2 + 1]
  for k in range(min(N, F)):
    ctx.eq(r[k], idft(ctx, pp, F, k), "inverse transform of the power", tol=1e-6)


def auto2(ctx, m, n, power):
  dsp = ctx.mod("sample.utils.dsp")
  re, im = ctx.reals("re", m, -2, 2), ctx.reals("im", m, -2, 2)
  a = ctx.arr(re, float) if power else ctx.arr(re, complex) + 1j * ctx.arr(im, complex)
  p = re if power else [x * x + y * y for x, y in zip(re, im)]
  r = dsp.fft2autocorrelogram(a, real=False, n=n, power=power)
  N = n or m
  ctx.cover("two-sided")
  ctx.check(ctx.np.shape(r) == (N,), "requested length")
  pp = (list(p) + [0] * N)[:N]
  for k in range(N):
    u = v = 0
    for i, q in enumerate(pp):
      u = u + q * math.cos(2 * math.pi * i * k / N)
      v = v + q * math.sin(2 * math.pi * i * k / N)
    ctx.eq(r[k].real, u / N, "inverse transform of the power", tol=1e-6)
    ctx.eq(r[k].imag, v / N, "inverse transform of the power", tol=1e-6)


def uneven(ctx, n, nfft):
  """autocorrelogram of unevenly sampled signals"""
  dsp = ctx.mod("sample.utils.dsp")
  tv, xv = ctx.reals("t", 2, 0, 1.5), ctx.reals("x", 2, -2, 2)
  vals = ctx.reals("p", 9, 0, 10)
  log = patch_ls(ctx, vals)
  kw = {k: v for k, v in (("n", n), ("nfft", nfft)) if v is not None}
  if n is None:
    t = ctx.ite(tv[0] > tv[1], tv[0], tv[1])
    ctx.assume(ctx.And(t * 2 > 1.001, ctx.Or(t * 2 < 1.999, ctx.And(t * 2 > 2.001, t * 2 < 2.999))))
    n = 3 if bool(t * 2 > 2) else 2
  r = dsp.lombscargle_autocorrelogram(ctx.arr(tv, float), ctx.arr(xv, float), fs=2., **kw)
  F = nfft or 2 * n
  ctx.check(ctx.np.shape(r) == (n,), "requested length")
  ctx.check(len(log) == 1, "one periodogram")
  ctx.eq(log[0][2][0], 2 * math.pi * 2. / F, "frequency of the first bin", tol=1e-9)
  m = (xv[0] + xv[1]) / 2
  p = [m * m] + vals[:F // 2]
  for k in range(n):
    ctx.eq(r[k], idft(ctx, p, F, k), "inverse transform of the periodogram", tol=1e-6)


def configs(tier):
  big = tier == "thorough"
  q = [(f"spec{n}{'h' if h else ''}{'l' if l else ''}", spectrum, dict(nfft=n, hpf=h, lpf=l)) for n in ((4, 5, 8) if not big else (4, 5, 6, 7, 8, 16))
       for h in (False, True) for l in (False, True)]
  q += [("spec1", spectrum, dict(nfft=4, hpf=False, lpf=False, nx=1)), ("spec3", spectrum, dict(nfft=4, hpf=False, lpf=False, nx=3))]
  for m, n, f in ((3, None, None), (3, 2, 4), (3, 4, 4), (4, 3, 6), (5, None, None), (3, 3, 8), (2, None, None), (4, 5, 5)):
    for p in (True, False):
      q.append((f"auto{m}{n}{f}{p}", auto, dict(m=m, n=n, nfft=f, power=p)))
  q += [(f"two{m}{n}{p}", auto2, dict(m=m, n=n, power=p)) for m, n in ((3, None), (4, None), (4, 3)) for p in (True, False)]
  q += [(f"uneven{n}{f}", uneven, dict(n=n, nfft=f)) for n, f in ((None, None), (2, None), (3, 8))]
  return q
