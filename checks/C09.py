"""C09 zero-phase DFT frames"""
BOUNDS = "windows of 1..6 samples in FFTs of 2, 3, 4, 5, 6 and 8 points; every frame and window value real"
OUTSIDE = "larger transforms; the phase spectrum apart from its length and the frames of one sample; rounding of the FFT"
ASSUMPTIONS = ["scipy.fft.rfft computes the discrete Fourier transform exactly"]
COVERS = {"short", "full", "odd", "even", "model", "phase", "silent"}


def h(ctx, w, n, model=False, phase=False, win=None, wrapped=False, frame=None):
  dsp = ctx.mod("sample.sms.dsp")
  x, win = ctx.reals("x", w), win or ctx.reals("w", w)
  if frame:  # which of the values, or a constant, every sample has
    x = [x[v] if isinstance(v, int) else v for v in frame]
  if not phase and ctx.symbolic:
    ctx.patch(ctx.np, "angle", lambda z: ctx.np.zeros(len(z)))  # phases are looked at in the other configurations
  if wrapped and ctx.symbolic:
    ctx.patch(ctx.np, "unwrap", lambda p, *a, **k: p)  # adds multiples of the period only, which sines and cosines do not see
  a, b = ctx.arr(x, float), ctx.arr(win, float)
  ctx.cover("full" if w == n else "short")
  ctx.cover("odd" if w % 2 else "even")
  if model:
    ctx.cover("model")
    sm = ctx.mod("sample.sms.sm")
    m = sm.SinusoidalModel(w=b, n=n, tracker__h=1)
    tot = sum(win[1:], win[0])
    ctx.assume(ctx.Or(tot > 1e-2, tot < -1e-2))
    m.w_ = b / ctx.np.sum(b)
    r = list(m.dft_frames(a))
    ctx.check(len(r) == 1, "one frame")
    mx, px = r[0]
    win = [v / tot for v in win]
  else:
    mx, px = dsp.dft(a, b, n)
  ctx.check(len(mx) == len(px) == n // 2 + 1, "one value per non-negative frequency")
  ctx.eq(a, ctx.arr(x, float), "the frame is not modified", tol=0)
  # the rotated frame: centre at zero
  z = [0.] * n
  c = w // 2
  for i in range(w):
    z[(i - c) % n] = x[i] * win[i]
  ref = ctx.np.fft.fft(ctx.arr(z, float))
  for k in range(n // 2 + 1):
    ctx.eq(mx[k], 20 * ctx.fn("log10")(ctx.np.maximum(ctx.np.abs(ref[k]), EPS)), f"level of bin {k}")
    ctx.check(ctx.isfinite(mx[k]), "finite level")
    if phase:
      a = ctx.np.abs(ref[k])
      if a > 1e-13:
        ctx.cover("phase")
        ctx.eq(ctx.fn("cos")(px[k]) * a, ref[k].real, f"cosine of the phase of bin {k}")
        ctx.eq(ctx.fn("sin")(px[k]) * a, ref[k].imag, f"sine of the phase of bin {k}")
      else:
        ctx.cover("silent")
      if k and not wrapped:
        ctx.check(ctx.And(px[k] - px[k - 1] < 3.1415927, px[k - 1] - px[k] < 3.1415927), "the phase is unwrapped")


EPS = 2.220446049250313e-16


def configs(tier):
  win = [.5, 2., 1.5, -.25, 1., .75, 3., 1.25]
  q = [("w3n4", h, dict(w=3, n=4)), ("w4n4", h, dict(w=4, n=4)), ("w2n4", h, dict(w=2, n=4)), ("w1n4", h, dict(w=1, n=4)),
       ("w2n2", h, dict(w=2, n=2)), ("w5n8", h, dict(w=5, n=8, win=win[:5]), {"ct": 4000, "qt": 1000}),
       ("w3n6", h, dict(w=3, n=6)), ("w3n3", h, dict(w=3, n=3)),
       ("w2n3", h, dict(w=2, n=3)), ("w1n1", h, dict(w=1, n=1)), ("w3n4m", h, dict(w=3, n=4, model=True)),
       ("w1n4p", h, dict(w=1, n=4, phase=True)),
       ("w3n4ps", h, dict(w=3, n=4, phase=True, win=[1., 2., 1.], wrapped=True, frame=[0, 1, 0])),
       ("w3n4pa", h, dict(w=3, n=4, phase=True, win=win[:3], wrapped=True, frame=[0, .5, -2.])),
       ("w3n4pb", h, dict(w=3, n=4, phase=True, win=win[:3], wrapped=True, frame=[.5, -2., 0])), ("w2n4p", h, dict(w=2, n=4, phase=True, win=win[:2], wrapped=True)),
       ("w2n2p", h, dict(w=2, n=2, phase=True, win=win[:2], wrapped=True))]
  if tier == "thorough":
    q += [("w3n4p", h, dict(w=3, n=4, phase=True, win=win[:3], wrapped=True)),
          ("w8n8", h, dict(w=8, n=8, win=win)), ("w6n8", h, dict(w=6, n=8, win=win[:6])), ("w6n6", h, dict(w=6, n=6)),
          ("w7n8", h, dict(w=7, n=8, win=win[:7])), ("w5n6", h, dict(w=5, n=6))]
  return q
