"""C07 parabolic refinement of peaks"""
BOUNDS = "spectra of 3..6 samples with up to 2 peaks (quick), 3..8 (thorough); every real magnitude, phase and threshold"
OUTSIDE = "longer spectra (the refinement of a peak only looks at its two neighbours); rounding of nearly flat peaks"
COVERS = {"peak", "left", "right", "nophase"}


def vertex(ctx, l, c, r):
  """vertex of the parabola through (-1, l), (0, c), (1, r): a t^2 + b t + c"""
  a2, b2 = l + r - 2 * c, r - l  # twice the coefficients
  return -b2 / (2 * a2), c - b2 * b2 / (8 * a2)


def h(ctx, n, phase=True, thr=False):
  dsp = ctx.mod("sample.sms.dsp")
  x = ctx.reals("x", n)
  ph = ctx.reals("ph", n)
  kw = {}
  if thr:
    kw["t"] = ctx.real("t")
  mx, px = ctx.arr(x, float), ctx.arr(ph, float)
  if phase:
    loc, mag, pph = dsp.peak_detect_interp(mx, px, **kw)
  else:
    ctx.cover("nophase")
    loc, mag = dsp.peak_detect_interp(mx, **kw)
  idx = [int(i) for i in dsp.peak_detect(ctx.arr(x, float), **kw)]
  ctx.check(len(loc) == len(mag) == len(idx), "one refined value per peak")
  ctx.eq(mx, ctx.arr(x, float), "the spectrum is not modified", tol=0)
  ctx.eq(px, ctx.arr(ph, float), "the phase is not modified", tol=0)
  for k, i in enumerate(idx):
    ctx.cover("peak")
    d, v = vertex(ctx, x[i - 1], x[i], x[i + 1])
    ctx.eq(loc[k] - i, d, "position of the vertex")
    ctx.eq(mag[k], v, "height of the vertex")
    ctx.check(ctx.And(loc[k] - i < .5, i - loc[k] < .5), "less than half a bin away")
    ctx.le(x[i], mag[k], "never below the sample")
    if phase:
      if loc[k] >= i:
        ctx.cover("right")
        want = ph[i] + (loc[k] - i) * (ph[i + 1] - ph[i])
      else:
        ctx.cover("left")
        want = ph[i] - (i - loc[k]) * (ph[i] - ph[i - 1])
      ctx.eq(pph[k], want, "phase interpolated at the refined position")


def configs(tier):
  q = [("n5", h, dict(n=5)), ("n6", h, dict(n=6)), ("n3", h, dict(n=3)), ("n4t", h, dict(n=4, thr=True)), ("n2", h, dict(n=2)),
       ("n4", h, dict(n=4)), ("n5n", h, dict(n=5, phase=False)), ("n5t", h, dict(n=5, thr=True))]
  if tier == "thorough":
    q = [("n7", h, dict(n=7)), ("n8", h, dict(n=8)), ("n7t", h, dict(n=7, thr=True)), ("n7n", h, dict(n=7, phase=False))] + q
  return q
