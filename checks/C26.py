"""C26 random beat generator"""
BOUNDS = "one draw of every kind (two for sizes); every outcome of the random number generator within its support, every valid range"
OUTSIDE = "the distributions themselves, floating-point rounding at the ends of a range"
ASSUMPTIONS = ["numpy's generators return values within the support of their distributions"]
COVERS = {"positive", "negative", "beat", "decays", "amps", "only beat", "noise", "audio", "size"}


class Rng:
  """a random number generator with arbitrary outcomes"""

  def __init__(self, ctx):
    self.ctx = ctx
    self.n = 0
    self.log = []

  def draw(self, kind, size, lo, hi):
    k = 1 if size is None else int(size)
    v = [self.ctx.real(f"{kind}{self.n + i}", lo, hi) for i in range(k)]
    self.n += k
    self.vals = v
    return v[0] if size is None else self.ctx.arr(v, float)

  def beta(self, a, b, size=None):
    self.log.append(("beta", a, b))
    return self.draw("beta", size, 0, 1)

  def uniform(self, low=0., high=1., size=None):
    u = self.draw("unif", size, 0, 1)
    return low + (high - low) * u

  def random(self, size=None):
    return self.draw("unif", size, 0, 1)

  def standard_exponential(self, size=None):
    return self.draw("expo", size, 0, 50)

  def exponential(self, scale=1., size=None):
    self.log.append(("exponential", scale))
    return self.standard_exponential(size) * scale

  def standard_normal(self, size=None):
    return self.draw("norm", size, -9, 9)

  def normal(self, loc=0., scale=1., size=None):
    self.log.append(("normal", loc, scale))
    return self.standard_normal(size) * scale + loc


def gen(ctx, **kw):
  r = ctx.mod("sample.evaluation.random")
  rng = Rng(ctx)
  return r.BeatsGenerator(rng=rng, **kw), rng


def twosides(ctx, size=None):
  g, rng = gen(ctx)
  lo, hi, p = ctx.real("left", 0, 10), ctx.real("right", 0, 10), ctx.real("positive", 0, 1)
  ctx.assume(lo <= hi)
  kw = {} if size is None else {"size": size}
  xs = g.beta_twosides(2., 3., left=lo, right=hi, positive=p, **kw)
  if size is None:
    xs = [xs]
  else:
    ctx.cover("size")
    ctx.check(len(xs) == size, "number of samples drawn")
  for x in xs:
    ctx.check(ctx.And(abs(x) >= lo - 1e-9, abs(x) <= hi + 1e-9), "magnitude is within the limits")
  ctx.check(all(l[1:] == (2., 3.) for l in rng.log if l[0] == "beta"), "parameters of the distribution")
  x = xs[0]
  neg = bool(x < 0)
  ctx.cover("negative" if neg else "positive")
  y = g.beta_twosides(2., 3., left=lo, right=hi, positive=1.)
  ctx.check(y >= lo - 1e-9, "always positive when asked")


def freqs(ctx, room, part):
  psy = ctx.mod("sample.psycho")
  bmin, bmax = ctx.real("bmin", .5, 20), ctx.real("bmax", .5, 40)
  dmin, dmax = ctx.real("dmin", 0, 5), ctx.real("dmax", 0, 5)
  ctx.assume(ctx.And(bmin <= bmax, dmin <= dmax))
  kw = {}
  if room:
    # the second partial needs concrete limits for a verdict
    fmin, fmax = (ctx.real("fmin", 100, 500), ctx.real("fmax", 2000, 8000)) if part != 1 else (200., 2000.)
    ctx.assume(ctx.And(dmax <= 4, bmax <= 40))
    kw = {"f_min": fmin, "f_max": fmax}
  g, rng = gen(ctx, beat_min=bmin, beat_max=bmax, delta_min=dmin, delta_max=dmax, beat_a=2.5, beat_b=3.5, delta_a=4.5, delta_b=5.5, f_a=6.5, f_b=7.5, **kw)
  f = g.freqs()
  ctx.check(len(f) == 3, "three frequencies")
  ctx.cover("beat")
  if part == "beat":
    d = abs(f[1] - f[0])
    ctx.check(ctx.And(d >= bmin - 1e-6, d <= bmax + 1e-6), "beat frequency is within its range")
  elif part == "bark":
    z = abs(psy.hz2bark(f[2]) - psy.hz2bark(f[0]))
    ctx.check(ctx.And(z >= dmin - 1e-6, z <= dmax + 1e-6), "third partial is at a distance in Bark within its range")
  else:
    i = part
    ctx.check(ctx.And(f[i] >= fmin - 1e-6 * fmin, f[i] <= fmax + 1e-6 * fmax), "frequencies are within the limits when there is room")
  ctx.check([l[1:] for l in rng.log] == [(2.5, 3.5), (4.5, 5.5), (6.5, 7.5)], "parameters of the distributions")


def decays(ctx):
  dmin, d = ctx.real("dmin", 0, 5), ctx.real("d", 0, 5)
  ctx.assume(dmin <= d)
  g, rng = gen(ctx, decay_min=dmin, decay=d)
  x = g.decays()
  ctx.cover("decays")
  ctx.check(len(x) == 3, "three decays")
  for v in x:
    ctx.check(v >= dmin - 1e-9, "decays are not below their minimum")
  for l in rng.log:
    ctx.eq(l[1], d - dmin, "expected decay")
  if len(rng.log) == 1 and rng.log[0][0] == "exponential":
    ctx.eq(x[0], dmin + (d - dmin) * rng.vals[0], "decay", tol=1e-6)


def amps(ctx, only):
  snr, lo = ctx.real("snr", -20, 100), ctx.real("lo", -60, 0)
  g, rng = gen(ctx, snr=snr, amp_min=lo, onlybeat=only)
  a = g.amps()
  ctx.cover("only beat" if only else "amps")
  ctx.check(len(a) == 3, "three amplitudes")
  s = 0
  for v in a:
    ctx.check(v >= 0, "amplitudes are not negative")
    s = s + v
  ctx.eq(s, g.sine_amp, "amplitudes sum to the sinusoidal amplitude", tol=1e-6)
  if only:
    ctx.eq(a[2], 0, "no third partial")
  floor = ctx.fn("db2a")(lo)
  for i in range(2):
    for j in range(2):
      ctx.check(a[i] >= a[j] * floor - 1e-9, "relative amplitudes are not below the minimum")


def noise(ctx):
  snr = ctx.real("snr", -20, 100)
  g, rng = gen(ctx, snr=snr)
  ctx.cover("noise")
  ctx.eq(g.noise_amp + g.sine_amp, 1, "amplitudes sum to one", tol=1e-9)
  ctx.eq(g.sine_amp / g.noise_amp, ctx.fn("db2a")(snr), "ratio of the amplitudes", tol=1e-6)
  ctx.check(ctx.And(g.noise_amp > 0, g.sine_amp > 0), "amplitudes are positive")
  x = g.noise(2)
  ctx.check(ctx.np.shape(x) == (2,), "number of noise samples")
  for i in range(2):
    ctx.eq(x[i], g.noise_amp * rng.vals[i], "noise has the requested amplitude", tol=1e-6)


def audio(ctx):
  """audio is the sum of the modes drawn and of the noise"""
  smp = ctx.mod("sample.sample")
  fs, dur = 4., .5
  g, rng = gen(ctx)
  fr, de, am = (ctx.reals(k, 3, *r) for k, r in (("f", (100, 2000)), ("d", (.1, 5)), ("a", (0, 1))))
  no = ctx.reals("noise", 2, -1, 1)
  g.freqs = lambda **k: ctx.arr(fr, float)
  g.decays = lambda **k: ctx.arr(de, float)
  g.amps = lambda **k: ctx.arr(am, float)
  g.noise = lambda nsamples, **k: ctx.arr(no[:nsamples], float)
  x, r, p = g.audio(dur=dur, fs=fs)
  ctx.cover("audio")
  ctx.check(r == fs, "sample rate")
  ctx.check(ctx.np.shape(x) == (2,), "duration")
  for u, v in zip(p[:3], (fr, de, am)):
    ctx.eq(u, ctx.arr(v, float), "parameters returned are the ones drawn")
  want = smp.additive_synth(ctx.arr([0., .25], float), freqs=ctx.arr(fr, float), decays=ctx.arr(de, float), amps=ctx.arr(am, float), phases=p[3])
  ctx.check(len(p[3]) == 3, "three phases")
  for i in range(2):
    ctx.eq(x[i], want[i] + no[i], "modes and noise", tol=1e-6)
  for v in p[3]:
    ctx.check(ctx.And(v >= 0, v <= 6.283186), "phases are within a turn")


def configs(tier):
  q = [("twosides", twosides, {}), ("twosides2", twosides, dict(size=2)), ("twosides1", twosides, dict(size=1))]
  q += [(f"freqs{r}{p}", freqs, dict(room=r, part=p), {"lin": True}) for r, p in ((False, "beat"), (False, "bark"), (True, 0), (True, 1), (True, 2))]
  q += [("decays", decays, {}), ("amps", amps, dict(only=False)), ("ampsonly", amps, dict(only=True)), ("noise", noise, {}), ("audio", audio, {})]
  return q
