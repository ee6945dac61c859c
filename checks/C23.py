"""C23 cochleagram: alignment and stride"""
BOUNDS = "banks of 1..2 filters (3 thorough) of 1..3 taps with delays 0..3 samples, signals of 1..4 samples (6 thorough), strides 1..4; every sample and tap value, real and complex"
OUTSIDE = "longer filters and signals, floating-point rounding of the overlap-add convolution (replaced by the exact sum)"
ASSUMPTIONS = ["scipy's full convolutions compute the convolution sum"]
COVERS = {"full", "strided", "complex", "real", "delayed", "hwr"}


def bank(ctx, taps, delays, cplx):
  psy = ctx.mod("sample.psycho")
  irs = []
  for i, n in enumerate(taps):
    re = ctx.reals(f"h{i}r", n, -2, 2)
    if cplx:
      im = ctx.reals(f"h{i}i", n, -2, 2)
      irs.append((re, im))
    else:
      irs.append((re, [0] * n))

  class F(psy.GammatoneFilter):
    """a filter with a given impulse response"""

    def __init__(self, i):
      super().__init__(f=100. + i, n=1, bandwidth=1., t_c=float(delays[i]), phi=0.)
      self.i = i

    def ir_size(self, fs=1, **kwargs):
      return taps[self.i]

    def ir(self, t=None, fs=None, analytic=False, out=None, **kwargs):
      re, im = irs[self.i]
      if cplx:
        return ctx.arr(re, complex) + 1j * ctx.arr(im, complex)
      return ctx.arr(re, float)

  fb = psy.GammatoneFilterbank(filters=[F(i) for i in range(len(taps))])
  return fb, irs


def spec(xs, ir, off, width):
  """aligned full convolution, real and imaginary parts"""
  out = []
  for t in range(width):
    parts = []
    for h in ir:
      s = 0
      for k, v in enumerate(h):
        j = t - off - k
        if 0 <= j < len(xs):
          s = s + xs[j] * v
      parts.append(s)
    out.append(parts)
  return out


def patch_conv(ctx):
  """the exact convolution, for whichever of scipy's functions is used"""
  import scipy.signal
  np = ctx.np

  def conv(a, b, mode="full", **kwargs):
    if mode != "full":
      raise AssertionError("only full convolutions are expected")
    la, lb = np.size(a), np.size(b)
    out = np.zeros(la + lb - 1, dtype=np.result_type(a, b))
    for i in range(la):
      for j in range(lb):
        out[i + j] = out[i + j] + a[i] * b[j]
    return out

  if ctx.symbolic:
    for k in ("oaconvolve", "convolve", "fftconvolve"):
      ctx.patch(scipy.signal, k, conv)


def cochlea(ctx, taps, delays, n, strides, cplx, via="bank", method=None):
  psy = ctx.mod("sample.psycho")
  patch_conv(ctx)
  fb, irs = bank(ctx, taps, delays, cplx)
  xs = ctx.reals("x", n, -2, 2)
  x = ctx.arr(xs, float)
  b = fb.precompute(fs=1., analytic=cplx)
  ctx.check(len(b) == len(taps), "one response per filter")
  mx = max(delays)
  offs = [mx - d for d in delays]
  if mx:
    ctx.cover("delayed")
  ctx.cover("complex" if cplx else "real")
  width = n + max(t + o for t, o in zip(taps, offs)) - 1
  want = [spec(xs, ir, o, width) for ir, o in zip(irs, offs)]
  full = b.convolve(x, method=method) if via == "bank" else psy.cochleagram(x, filterbank=b, method=method, postprocessing=None)[0]
  ctx.cover("full")
  ctx.check(ctx.np.shape(full) == (len(taps), width), "shape of the cochleagram")
  for i in range(len(taps)):
    for t in range(width):
      cmp(ctx, full[i, t], want[i][t], "aligned full convolution")
  for s in strides:
    ctx.cover("strided")
    y = b.convolve(x, stride=s) if via == "bank" else psy.cochleagram(x, filterbank=b, stride=s, postprocessing=None)[0]
    ctx.check(ctx.np.shape(y) == (len(taps), -(-width // s)), "shape of the strided cochleagram")
    for i in range(len(taps)):
      for j in range(ctx.np.shape(y)[1]):
        cmp(ctx, y[i, j], want[i][j * s], "every stride-th sample of the full cochleagram")
  ctx.eq(x, ctx.arr(xs, float), "the signal is not modified", tol=0)


def cmp(ctx, got, want, msg):
  ctx.eq(got.real, want[0], msg)
  ctx.eq(got.imag, want[1], msg)


def rectified(ctx):
  """a real cochleagram is half-wave rectified unless asked otherwise, an analytic one is not"""
  psy = ctx.mod("sample.psycho")
  patch_conv(ctx)
  xs = ctx.reals("x", 2, -2, 2)
  for cplx in (False, True):
    fb, irs = bank(ctx, (2,), (0,), cplx) if not cplx else bank2(ctx)
    y, f = psy.cochleagram(ctx.arr(xs, float), fs=1., filterbank=fb, analytic="ir" if cplx else None)
    ctx.check(len(f) == 1, "one frequency per filter")
    ctx.eq(f[0], 100., "centre frequency")
    w = spec(xs, irs[0], 0, 3)
    for t in range(3):
      if cplx:
        cmp(ctx, y[0, t], w[t], "analytic cochleagram")
      else:
        ctx.eq(y[0, t], ctx.ite(w[t][0] > 0, w[t][0], 0), "rectified cochleagram")
  ctx.cover("hwr")


def bank2(ctx):
  class Renamed:
    """the same context with other input names"""

    def __getattr__(self, k):
      return getattr(ctx, k)

    def reals(self, name, *a):
      return ctx.reals("c" + name, *a)

  return bank(Renamed(), (2,), (0,), True)


def refused(ctx):
  fb, _ = bank(ctx, (1,), (0,), False)
  b = fb.precompute(fs=1.)
  x = ctx.arr(ctx.reals("x", 2, -1, 1), float)
  _, e = ctx.raises(lambda: b.convolve(x, stride=2, method="fft"), ValueError)
  ctx.check(e is not None, "stride and method exclude each other")
  z = x + 1j * x
  _, e = ctx.raises(lambda: b.convolve(z, stride=2), ValueError)
  ctx.check(e is not None, "complex signals cannot be strided")


def configs(tier):
  q = []
  T = [((1,), (0,)), ((3,), (1,)), ((2, 3), (0, 1)), ((3, 2), (0, 3)), ((3, 1), (2, 0)), ((2, 2), (1, 3)), ((1, 3), (3, 0))]
  for j, (t, d) in enumerate(T):
    for c in (False, True):
      for n in (1, 4) if tier != "thorough" else (1, 2, 3, 4, 5, 6):
        q.append((f"b{j}{'c' if c else 'r'}{n}", cochlea, dict(taps=t, delays=d, n=n, strides=(1, 2, 3, 4), cplx=c)))
  q.append(("fn", cochlea, dict(taps=(2, 3), delays=(0, 2), n=3, strides=(2,), cplx=False, via="fn")))
  q.append(("method", cochlea, dict(taps=(2, 3), delays=(0, 2), n=3, strides=(), cplx=True, method="direct")))
  q.append(("oa", cochlea, dict(taps=(2, 3), delays=(0, 2), n=3, strides=(), cplx=True, method="overlap-add")))
  q += [("rectified", rectified, {}), ("refused", refused, {})]
  if tier == "thorough":
    for c in (False, True):
      q.append((f"three{c}", cochlea, dict(taps=(3, 2, 4), delays=(1, 5, 0), n=4, strides=(1, 2, 3, 4, 5, 7), cplx=c)))
  return q
