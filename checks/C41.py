"""C41 decaying partials are recovered from audio"""
import math
BOUNDS = ("one or two stationary partials on bins of an 8- or 16-point transform with a Hann window, 2..4 frames without overlap, level falling by the same arbitrary factor at every frame; "
          "every amplitude and factor; forward and reversed analysis; windows with any gain; several sample rates")
OUTSIDE = "partials between bins, overlapping frames, noise; phases; the hinge regression (a stand-in draws the exact line); Fourier coefficients below 1e-10 are taken as zero"
ASSUMPTIONS = ["scipy.fft.rfft computes the discrete Fourier transform exactly", "the regression finds the exact line through collinear points"]
COVERS = {"one", "two", "reversed", "plain"}
C = -40 * math.log10(math.e)


def line(ctx):
  base = ctx.mod("sklearn.base")

  class Line(base.BaseEstimator):

    def fit(self, x, y):
      x, y = ctx.np.reshape(x, (-1,)), ctx.np.reshape(y, (-1,))
      self.k_ = (y[-1] - y[0]) / (x[-1] - x[0])
      self.q_ = y[0] - self.k_ * x[0]
      return self

  return Line()


def h(ctx, N, bins, m, fs, reverse=False, gain=1., plain=False):
  smp = ctx.mod("sample.sample")
  mm = ctx.mod("sample.sms.mm")
  n = len(bins)
  amps = [ctx.real(f"a{i}", .01, 1) for i in range(n)]
  dec = [ctx.real(f"g{i}", .5, .99) for i in range(n)]
  for v, lo, hi in [(a, .01, 1) for a in amps] + [(g, .5, .99) for g in dec]:
    l = ctx.fn("log10")(v)
    ctx.assume(ctx.And(l >= math.log10(lo) - 1e-9, l <= math.log10(hi) + 1e-9))
  x = []
  for j in range(m):
    for i in range(N):
      v = 0.
      for a, g, b in zip(amps, dec, bins):
        c = round(math.cos(2 * math.pi * b * i / N + .25), 12)
        t = a * c
        for _ in range(j):
          t = t * g
        v = v + t
      x.append(v)
  w = [gain * (.5 - .5 * math.cos(2 * math.pi * i / N)) for i in range(N)]
  if ctx.symbolic:
    ctx.patch(ctx.np, "angle", lambda z: ctx.np.zeros(len(z)))  # phases are not looked at
  s = mm.ModalModel(w=ctx.arr(w, float), n=N, t=-80, tracker__fs=fs, tracker__h=N, tracker__min_sine_dur=0, tracker__reverse=reverse,
                    tracker__frequency_bounds=(None, None), tracker__freq_dev_offset=fs / N / 4)
  if plain:  # the plain tracker knows no direction
    ctx.cover("plain")
    sm = ctx.mod("sample.sms.sm")
    s = sm.SinusoidalModel(w=ctx.arr(w, float), n=N, t=-80, tracker=sm.SineTracker(fs=fs, h=N, min_sine_dur=0, freq_dev_offset=fs / N / 4))
  model = smp.SAMPLE(sinusoidal=s, regressor=line(ctx))
  model.fit(ctx.arr(x, float))
  if reverse:
    ctx.cover("reversed")
  ctx.cover("one" if n == 1 else "two")
  ctx.check(len(model.freqs_) == n, "one mode for every partial")
  if len(model.freqs_) != n:
    return
  got = {}
  for i in range(n):
    for b in bins:
      d = model.freqs_[i] - b * fs / N
      if bool(ctx.And(d < fs / N / 100, d > -fs / N / 100)):
        got[b] = i
  ctx.check(len(got) == n, "frequency of every partial")
  if len(got) != n:
    return
  for k, b in enumerate(bins):
    i = got[b]
    lg = 20 * ctx.fn("log10")(dec[k])  # dB per frame
    ctx.eq(1. / model.decays_[i], lg * fs / N / C, "decay of the partial", tol=1e-4)
    # level at the frame centres
    for j in range(m):
      t = (j + .5) * N / fs
      lv = ctx.fn("a2db")(model.amps_[i]) + C * t / model.decays_[i]
      ctx.eq(lv, ctx.fn("a2db")(amps[k]) + j * lg, "level of the partial at the centre of every frame", tol=1e-3)


def configs(tier):
  q = [("8,2x3", h, dict(N=8, bins=[2], m=3, fs=1000)), ("8,2x2r", h, dict(N=8, bins=[2], m=2, fs=44100, reverse=True)),
       ("8,2x3rg", h, dict(N=8, bins=[2], m=3, fs=1000, reverse=True, gain=3.)), ("16,3x2", h, dict(N=16, bins=[3], m=2, fs=8000, gain=.25)),
       ("8,2x3s", h, dict(N=8, bins=[2], m=3, fs=1000, plain=True)), ("16,3,6x2", h, dict(N=16, bins=[3, 6], m=2, fs=8000))]
  q += [("16,3,6x3", h, dict(N=16, bins=[3, 6], m=3, fs=8000)), ("16,6,3x2r", h, dict(N=16, bins=[6, 3], m=2, fs=44100, reverse=True)), ("8,2x4", h, dict(N=8, bins=[2], m=4, fs=1000))]
  if tier == "thorough":
    q += [("16,3,6x3r", h, dict(N=16, bins=[3, 6], m=3, fs=8000, reverse=True)), ("8,2x6", h, dict(N=8, bins=[2], m=6, fs=1000)), ("32,3,7,11x2", h, dict(N=32, bins=[3, 7, 11], m=2, fs=8000)), ("16,3,6x4", h, dict(N=16, bins=[3, 6], m=4, fs=8000))]
  return [(*c, {"mono": True, "snap": True, "exp_split": True}) for c in q]
