"""C22 scales: inverse, increasing, reference points"""
BOUNDS = "one value (two for monotonicity) over the whole domain of each scale, as an array and as a scalar; FFT sizes 1..4096 (powers of two), any sample rate, any bin"
OUTSIDE = "floating-point rounding (e.g. bins of FFT sizes that are not powers of two can be rounded up); cams2hz at its pole"
ASSUMPTIONS = ["transcendental functions are increasing functions with their inverses and ranges"]
COVERS = {"inverse", "increasing", "reference"}

INV = {
    "mel-default": ("hz2mel", "mel2hz", {"mode": "default"}, 0, 30000),
    "mel-fant": ("hz2mel", "mel2hz", {"mode": "fant"}, 0, 30000),
    "mel": ("hz2mel", "mel2hz", {}, 0, 30000),
    "bark-traunmuller": ("hz2bark", "bark2hz", {"mode": "traunmuller"}, 0, 30000),
    "bark-wang": ("hz2bark", "bark2hz", {"mode": "wang"}, 0, 30000),
    "bark": ("hz2bark", "bark2hz", {}, 0, 30000),
    "cams-quadratic": ("hz2cams", "cams2hz", {"degree": "quadratic"}, 0, 30000),
    "cams-linear": ("hz2cams", "cams2hz", {"degree": "linear"}, 0, 30000),
    "cams": ("hz2cams", "cams2hz", {}, 0, 30000),
}
# ranges of the transformed variable
TRANS = {"mel-default": (0, 5000), "mel-fant": (0, 6000), "mel": (0, 5000), "bark-traunmuller": (-.53, 25.), "bark-wang": (-10, 30), "bark": (-.53, 25.),
         "cams-quadratic": (0., 42.), "cams-linear": (0, 50), "cams": (0., 42.)}
MONO = [("hz2mel", {"mode": "default"}), ("hz2mel", {"mode": "fant"}), ("hz2bark", {"mode": "zwicker"}), ("hz2bark", {"mode": "traunmuller"}),
        ("hz2bark", {"mode": "wang"}), ("hz2cams", {"degree": "quadratic"}), ("hz2cams", {"degree": "linear"}), ("erb", {"degree": "quadratic"}),
        ("erb", {"degree": "linear"}), ("mel2hz", {"mode": "default"}), ("mel2hz", {"mode": "fant"}), ("bark2hz", {"mode": "traunmuller"}),
        ("bark2hz", {"mode": "wang"}), ("cams2hz", {"degree": "quadratic"}), ("cams2hz", {"degree": "linear"})]
MONO_RANGE = {"bark2hz": (0, 25), "cams2hz": (0, 42), "mel2hz": (0, 5000)}


def inverse(ctx, which, back=False, scalar=False):
  m = ctx.mod("sample.psycho")
  f, g, kw, lo, hi = INV[which]
  if back:
    f, g = g, f
    lo, hi = TRANS[which]
  x = ctx.real("x", lo, hi)
  v = x if scalar else ctx.arr([x], float)
  y = getattr(m, g)(getattr(m, f)(v, **kw), **kw)
  ctx.cover("inverse")
  ctx.eq(y if scalar else y[0], x, f"{g} inverts {f}", tol=1e-6)


def increasing(ctx, i):
  m = ctx.mod("sample.psycho")
  f, kw = MONO[i]
  lo, hi = MONO_RANGE.get(f, (0, 30000))
  x, y = ctx.real("x", lo, hi), ctx.real("y", lo, hi)
  ctx.assume(y - x >= 1e-3)
  v = getattr(m, f)(ctx.arr([x, y], float), **kw)
  ctx.cover("increasing")
  ctx.lt(v[0], v[1], f"{f} is increasing")
  if f == "erb":
    ctx.check(v[0] > 0, "bandwidths are positive")


def decibel(ctx, floor=None, floor_db=False):
  d = ctx.mod("sample.utils.dsp")
  ctx.cover("inverse")
  x = ctx.real("x", -300, 100)
  ctx.eq(d.a2db(d.db2a(x)), x, "a2db inverts db2a", tol=1e-6)
  a = ctx.real("a", 1e-10, 1e5)
  ctx.eq(d.db2a(d.a2db(a)) / a, 1, "db2a inverts a2db", tol=1e-6)
  y = ctx.real("y", -300, 100)
  ctx.assume(x < y - 1e-6)
  ctx.cover("increasing")
  ctx.lt(d.db2a(x), d.db2a(y), "amplitude increases with decibels")
  b = ctx.real("b", 1e-10, 1e5)
  ctx.assume(b > a * 1.000001)
  ctx.lt(d.a2db(a), d.a2db(b), "decibels increase with amplitude")
  # floor
  fl = ctx.real("floor", 1e-5, 1)
  z = ctx.real("z", 0, 10)
  ctx.eq(d.a2db(z, floor=fl), d.a2db(ctx.ite(z < fl, fl, z)), "amplitudes are clipped to the floor", tol=1e-6)
  w = ctx.real("w", -100, 20)
  ctx.le(w - 1e-6, d.a2db(z, floor=w, floor_db=True), "levels are clipped to the floor in decibel")
  ctx.eq(d.complex2db(ctx.arr([complex(0, 1)], complex) * a)[0], d.a2db(a), "level of a complex value", tol=1e-6)


def references(ctx):
  m, d = ctx.mod("sample.psycho"), ctx.mod("sample.utils.dsp")
  ctx.cover("reference")
  ctx.eq(d.db2a(0.), 1, "0 dB is amplitude one", tol=1e-9)
  ctx.eq(d.a2db(1.), 0, "amplitude one is 0 dB", tol=1e-9)
  for k in ("default", "fant"):
    ctx.eq(m.hz2mel(0., mode=k), 0, "0 Hz is 0 mel", tol=1e-9)
    ctx.eq(m.mel2hz(0., mode=k), 0, "0 mel is 0 Hz", tol=1e-9)
    ctx.eq(m.hz2mel(1000., mode=k), 1000, "1 kHz is 1000 mel", tol=.05)
  ctx.eq(m.a_weighting(1000.), 0, "A-weighting is 0 dB at 1 kHz", tol=1e-9)
  ctx.eq(m.hz2cams(0., degree="linear"), 0, "0 Hz is 0 Cams", tol=1e-9)
  ctx.eq(m.hz2bark(0., mode="wang"), 0, "0 Hz is 0 Bark", tol=1e-9)
  ctx.eq(m.hz2bark(0., mode="zwicker"), 0, "0 Hz is 0 Bark", tol=1e-9)
  f = ctx.real("f", 1, 30000)
  ctx.lt(m.a_weighting(f, db=False), 1.3, "A-weighting is bounded")
  ctx.check(m.a_weighting(f, db=False) > 0, "A-weighting is positive")


def aweight(ctx):
  """decibel and linear weights agree at every frequency"""
  m, d = ctx.mod("sample.psycho"), ctx.mod("sample.utils.dsp")
  f = ctx.real("f", 1, 30000)
  ctx.cover("reference")
  lin, ref = m.a_weighting(f, db=False), m.a_weighting(1000., db=False)
  ctx.eq(m.a_weighting(f), d.a2db(lin) - d.a2db(ref), "weights in decibel are relative to 1 kHz", tol=1e-6)
  num = (12194. ** 2) * f * f * f * f
  den = (f * f + 20.6 ** 2) * (f * f + 12194. ** 2)
  ctx.eq(lin * den * lin * den * (f * f + 107.7 ** 2) * (f * f + 737.9 ** 2) / (num * num), 1, "A-weighting formula", tol=1e-6)


def bins(ctx, nfft):
  d = ctx.mod("sample.utils.dsp")
  fs = ctx.real("fs", .5, 192000)
  k = ctx.int("k", 0, nfft)
  ctx.cover("inverse")
  f = d.bin2f(k, nfft=nfft, fs=fs)
  ctx.eq(f * nfft, k * fs, "frequency of a bin", tol=1e-6)
  b = d.f2bin(ctx.arr([f - fs / (8. * nfft), f + fs / (8. * nfft), f], float), nfft=nfft, fs=fs)
  ctx.eq(b[0], k, "a frequency just below a bin belongs to it")
  ctx.eq(b[1], k + 1, "a frequency just above a bin belongs to the next")
  if ctx.symbolic:
    ctx.eq(b[2], k, "bin of the frequency of a bin")
  ctx.cover("increasing")


def configs(tier):
  q = []
  for w in INV:
    q += [(f"inv-{w}", inverse, dict(which=w)), (f"back-{w}", inverse, dict(which=w, back=True)), (f"scalar-{w}", inverse, dict(which=w, scalar=True))]
  q += [(f"mono{i}-{MONO[i][0]}", increasing, dict(i=i)) for i in range(len(MONO))]
  q += [("decibel", decibel, {}), ("references", references, {}), ("aweight", aweight, {})]
  q += [(f"bins{n}", bins, dict(nfft=n)) for n in ((1, 8, 1024) if tier != "thorough" else (1, 2, 8, 64, 512, 1024, 2048, 4096))]
  return q
