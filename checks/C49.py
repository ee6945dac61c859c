"""C49 the example script analyses the requested region"""
import logging
import math
import types

from checks.C58 import session

BOUNDS = ("audio of 1..4 samples (5 thorough), 1..2 channels, unsigned 8-bit, signed 16 and 32-bit, 32 and 64-bit floating point, every value; limits of the region: each given or not, every value, every detector output, every sample rate in 1..8 (crop) or any; "
          "resynthesis of 1..3 samples of any value; progress of 1..4 steps with and without explicit values")
OUTSIDE = "parsing of audio files and downloading (stand-ins); the analysis itself (C41, C18); limits that leave nothing of the audio; negative limits; the drawing of the progress bar"
ASSUMPTIONS = ["the onset detector gives any mask", "samples scaled to floating point up to rounding"]
COVERS = {"uint8", "int16", "int32", "float64", "channels", "downloaded", "both limits", "start only", "end only", "no limits", "no onsets", "end beyond", "not cropped", "too loud", "quiet", "clipped", "named", "silent", "progress"}
REL = "scripts/beatsdrop/example.py"


def script(ctx):
  m = ctx.script(REL)
  logging.getLogger("BeatsDROP-Example").setLevel(logging.CRITICAL + 1)
  return m


def files(ctx, m, sound=None):
  """wavfile stand-in: (paths read, list of written files)"""
  read, written = [], []

  def rd(f, *a, **k):
    read.append(f)
    return sound

  ctx.patch(m, "wavfile", types.SimpleNamespace(read=rd, write=lambda f, fs, x: written.append((f, fs, x))))
  return read, written


def load(ctx, fmt, n, ch, url):
  m, np = script(ctx), ctx.np
  k = n * (ch or 1)
  if fmt[0] == "f":
    v, half, off = ctx.reals("v", k, -2, 2), 1, 0
  else:
    bits = int(fmt.lstrip("uint"))
    half = 2**(bits - 1)
    off = half if fmt[0] == "u" else 0
    v = ctx.ints("v", k, off - half, off + half - 1)
  x = ctx.arr(v, getattr(np, fmt)).reshape((n,) if ch is None else (n, ch))
  sr = ctx.int("sr", 1)
  read, written = files(ctx, m, (sr, x))
  got = []

  def get(u, **kw):
    got.append(u)
    return types.SimpleNamespace(content=b"RIFF")

  ctx.patch(m, "requests", types.SimpleNamespace(get=get))
  args = m.ArgParser().parse_args(["-u", "http://x/y/sound.wav"] if url else ["-i", "/a/sound.wav"])
  _, exc = ctx.raises(lambda: m.load_audio(args), ValueError, TypeError, OverflowError, ZeroDivisionError, FloatingPointError)
  ctx.check(exc is None, "the audio is loaded")
  if exc is not None:
    return
  ctx.check(len(read) == 1 and not written, "one file is read, none is written")
  if url:
    ctx.check(got == ["http://x/y/sound.wav"] and args.input == "sound.wav", "the address asked for")
    ctx.cover("downloaded")
  else:
    ctx.check(not got and read[0] == "/a/sound.wav", "the file asked for")
  ctx.eq(args.fs, sr, "sample rate", tol=0)
  y = args.x
  ctx.check(np.shape(y) == (n,), "one channel")
  ctx.check(y.dtype.kind == "f", "floating point")
  ctx.cover(fmt)
  if ch:
    ctx.cover("channels")
  if np.shape(y) != (n,):
    return
  for i in range(n):
    w = v[i * (ch or 1):(i + 1) * (ch or 1)]
    s = sum(w[1:], w[0])
    ctx.eq(y[i], (s / len(w) - off) / half, "value on the common scale", tol=1e-9)


def crop(ctx, n, start, end, named, nocrop=False):
  m, np = script(ctx), ctx.np
  x = ctx.reals("x", n, -1, 1)
  fs = ctx.int("fs", 1, 8)
  mask = [bool(b) for b in ctx.bools("onset", n)]
  seen = []

  def det(a, *_, **__):
    seen.append(a)
    return ctx.arr(list(mask), bool)

  ctx.patch(m.dsp, "onset_detection", det)
  _, written = files(ctx, m)
  args = m.ArgParser().parse_args(["-i", "/a.b/sound.wav"] + (["--no-crop"] if nocrop else []) + (["-c", "/c/cut.wav"] if named else []))
  ctx.check(args.crop_start is None and args.crop_end is None and args.no_crop == nocrop, "defaults of the limits")
  lo = hi = None
  if start:
    args.crop_start = s = ctx.real("start", 0, 8)
    lo = ctx.fn("floor")(s * fs)
    ctx.assume(lo < n)
  if end:
    args.crop_end = e = ctx.real("end", 0, 8)
    hi = ctx.fn("floor")(e * fs)
    ctx.assume(ctx.And(hi > 0, hi <= n + 2))
    if start:
      ctx.assume(lo < hi)
  args.fs, args.x = fs, ctx.arr(x, float)
  r = m.crop_audio(args)
  ctx.check(r is args, "arguments are returned")
  y = args.x
  if nocrop:
    ctx.cover("not cropped")
    ctx.check(len(y) == n and not written, "all of the audio is kept, nothing is written")
    for a, b in zip(y, x):
      ctx.same(a, b, "audio is not altered")
    return
  ctx.check(len(y) > 0, "something is left")
  # the region expected
  a = next((i for i in range(n) if bool(lo == i)), None) if start else None
  b = next((i for i in range(n + 3) if bool(hi == i)), None) if end else None
  ons = [i for i in range(n) if mask[i]]
  if not ons:
    ctx.cover("no onsets")
  if start and end:
    ctx.cover("both limits")
  elif start:
    ctx.cover("start only")
    b = min([i for i in ons if i > a], default=n)
  elif end:
    ctx.cover("end only")
    a = max([i for i in ons if i < b], default=0)
  else:
    ctx.cover("no limits")
    if not ons:
      a, b = 0, n
    else:
      e = ons + [n]
      d = [q - p for p, q in zip(e, e[1:])]
      k = [i for i in range(len(d)) if d[i] == max(d)]
      ctx.check(any(len(y) == d[i] for i in k), "the longest sound")
      a = next((e[i] for i in k if len(y) == d[i] and same_values(ctx, y, x[e[i]:e[i + 1]])), e[k[0]])
      b = a + max(d)
  if end and b > n:
    ctx.cover("end beyond")
  want = x[a:b]
  ctx.check(len(y) == len(want), "length of the region")
  if len(y) == len(want):
    for p, q in zip(y, want):
      ctx.same(p, q, "audio of the region")
  ctx.check(len(written) == 1, "the region is written")
  if len(written) == 1:
    f, sr, w = written[0]
    ctx.check(f == ("/c/cut.wav" if named else "/a.b/sound-cropped.wav"), "file of the region")
    if named:
      ctx.cover("named")
    ctx.eq(sr, fs, "sample rate of the region", tol=0)
    ctx.check(len(w) == len(want), "length of the file")
    for p, q in zip(w, want):
      ctx.same(p, q, "audio of the file")


def same_values(ctx, y, w):
  return len(y) == len(w) and all(bool(p == q) for p, q in zip(y, w))


def resynth(ctx, n, clip, named):
  m, np = script(ctx), ctx.np
  y = ctx.reals("y", n, -4, 4)
  fs = ctx.int("fs", 1, 192000)
  th = ctx.real("th", .1, 1)
  asked = []

  def predict(t, **kw):
    asked.append((t, kw))
    return ctx.arr(y, float)

  _, written = files(ctx, m)
  args = m.ArgParser().parse_args(["-i", "/a/sound.wav"] + (["--clip"] if clip else []) + (["-o", "/c/out.wav"] if named else []))
  args.fs, args.x, args.model = fs, np.zeros(n), types.SimpleNamespace(predict=predict)
  nm = ctx.choice("modes", [None, 3])
  r = m.resynth_audio(args, n_modes=nm, clip_th=th)
  ctx.check(r is args, "arguments are returned")
  ctx.check(len(asked) == 1 and len(asked[0][0]) == n, "one sample for every input sample")
  ctx.check(asked[0][1].get("n_modes") == nm, "number of modes asked for")
  for i, t in enumerate(asked[0][0]):
    ctx.eq(t, i / fs, "time of the sample", tol=1e-9)
  ctx.check(len(written) == 1, "one file is written")
  if len(written) != 1:
    return
  f, sr, w = written[0]
  ctx.check(f == ("/c/out.wav" if named else "/a/sound-output.wav"), "output file")
  ctx.eq(sr, fs, "sample rate", tol=0)
  ctx.check(len(w) == n, "length of the output")
  peak = y[0] if bool(y[0] >= 0) else -y[0]
  for v in y[1:]:
    a = v if bool(v >= 0) else -v
    if bool(a > peak):
      peak = a
  if bool(peak > th) and not clip:
    ctx.cover("too loud")
    for p, q in zip(w, y):
      ctx.eq(p * peak, q * th, "scaled down to the limit", tol=1e-9)
      ctx.check(ctx.And(p <= th + 1e-9, p >= -th - 1e-9), "within the limit")
  else:
    ctx.cover("clipped" if clip else "quiet")
    if bool(peak == 0):
      ctx.cover("silent")
    for p, q in zip(w, y):
      ctx.same(p, q, "not altered")


def limit(ctx):
  """the limit used when none is given leaves headroom below full scale"""
  m = script(ctx)
  y = ctx.reals("y", 2, -4, 4)
  _, written = files(ctx, m)
  args = m.ArgParser().parse_args(["-i", "/a/s.wav"])
  args.fs, args.x, args.model = 8, ctx.np.zeros(2), types.SimpleNamespace(predict=lambda t, **k: ctx.arr(y, float))
  m.resynth_audio(args)
  for v in written[0][2]:
    ctx.check(ctx.And(v <= .97, v >= -.97), "no output beyond full scale")
  for p, q in ((0, 1),):
    ctx.eq(written[0][2][p] * y[q], written[0][2][q] * y[p], "relative levels are kept", tol=1e-9)


class Bar:
  """progress bar stand-in"""

  def __init__(self):
    self.total, self.n, self.last_print_n, self.shown, self.cleared = 100, 0, 0, [], 0

  def refresh(self, *a, **k):
    self.shown.append((self.n, self.total))

  def clear(self, *a, **k):
    self.cleared += 1


def progress(ctx, acts, bar):
  """progress display (more of it in C58)"""
  session(ctx, "script", acts, bar)
  ctx.cover("progress")


def fit(ctx, tq):
  m = script(ctx)
  np = ctx.np
  calls = []
  outer = ctx

  class Model:

    def __init__(self, **kw):
      self.kw = kw

    def fit(self, x, **kw):
      calls.append((self, x, kw))
      self.freqs_ = outer.np.ones(2)
      return self

  mod = ctx.mod("sample.beatsdrop.sample")
  ctx.patch(mod, "SAMPLEBeatsDROP", Model)
  bars = []

  def trange(*a, **k):
    bars.append(Bar())
    return bars[-1]

  ctx.patch(m, "tqdm", types.SimpleNamespace(trange=trange, std=types.SimpleNamespace(tqdm=Bar)))
  args = m.ArgParser().parse_args(["-i", "/a/s.wav"] + ([] if tq else ["--no-tqdm"]))
  fs = ctx.int("fs", 1, 192000)
  args.fs, args.x = fs, ctx.arr(ctx.reals("x", 3), float)
  x = args.x
  r = m.fit_model(args, n_jobs=ctx.choice("jobs", [0, 2]))
  ctx.check(r is args and len(calls) == 1 and args.model is calls[0][0], "the model fitted is kept")
  ctx.check(calls[0][1] is x, "the region is analysed")
  ctx.eq(calls[0][2]["sinusoidal__tracker__fs"], fs, "at its sample rate", tol=0)
  ctx.check(bool(bars) == tq and ("_fit_args" in calls[0][2]) == tq, "progress is shown unless asked not to")
  if tq:
    ctx.check(calls[0][2]["_fit_args"].progressbar is bars[0], "progress bar is used")
  kw = calls[0][0].kw
  ctx.check(kw.get("sinusoidal__n") >= len(kw.get("sinusoidal__w")), "the window fits the transform")


def configs(tier):
  n = 2 if tier == "quick" else 3
  for fmt in ("uint8", "int16", "int32", "float32", "float64"):
    for ch in (None, 1, 2):
      yield f"load {fmt} {ch}", load, dict(fmt=fmt, n=n, ch=ch, url=fmt == "int16")
  for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
    for s in (False, True):
      for e in (False, True):
        yield f"crop {k} {'s' if s else ''}{'e' if e else ''}", crop, dict(n=k, start=s, end=e, named=k == 2)
  yield "no crop", crop, dict(n=2, start=True, end=False, named=True, nocrop=True)
  for k in (1, 2, 3):
    for c in (False, True):
      yield f"resynth {k} {c}", resynth, dict(n=k, clip=c, named=k == 2)
  yield "limit", limit, {}
  for acts in (["start", "step", "jump", "stop"], ["start", "jump", "step", "stop", "start0", "step"]):
    for bar in (False, True):
      yield f"progress {len(acts)} {bar}", progress, dict(acts=acts, bar=bar)
  for tq in (False, True):
    yield f"fit {tq}", fit, dict(tq=tq)
