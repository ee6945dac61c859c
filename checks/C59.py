"""C59 analysis commutes with changes of units, levels, sign and surroundings"""
import math

from checks.C50 import line, alike, window, N

BOUNDS = ("tracking of 3..6 frames of 0..2 peaks (5..7 thorough), every frequency, magnitude and phase, with acceptance criteria that are reached or not, both merging strategies, both directions; sampling rate and frequencies times 2 or 1/2, "
          "every level shift and phase shift, 1..3 empty frames before or after, peaks of another band added; audio of 2..3 frames with every amplitude and decay, through the model and its prediction")
OUTSIDE = "scales that are not powers of two (rounding); beats (their regression is iterative); peaks closer than 1e-6 to a threshold when levels or phases are shifted"
ASSUMPTIONS = ["scipy.fft.rfft computes the discrete Fourier transform exactly", "peak magnitudes within a frame are distinct", "the regression of the audio is a stand-in that draws a line through the ends"]
COVERS = {"rate", "level", "phase", "before", "after", "apart", "saved", "merged", "rejected", "reverse", "strip", "audio rate", "audio level", "audio sign", "modes", "predicted"}


def tracker(ctx, plan, how, c=2, strategy="average", reverse=False, dur=0, strip=None, bound=None, threshold=-90., off=20.):
  mm = ctx.mod("sample.sms.mm")
  slope = .01
  lo = bound and ctx.real("lo", 1, 1000)
  kw = lambda s=1, d=0: dict(fs=64 * s, h=16, max_n_sines=10, min_sine_dur=dur / s, freq_dev_offset=off * s, freq_dev_slope=slope, frequency_bounds=(None if lo is None else lo * s, None),
                             peak_threshold=threshold + d, reverse=reverse, merge_strategy=strategy, strip_t=None if strip is None else strip / s)
  fr = []
  for k, n in enumerate(plan):
    f, m, p = ctx.reals(f"f{k}_", n, 20, 1000), ctx.reals(f"m{k}_", n, -100, 0), ctx.reals(f"p{k}_", n, -3, 3)
    for i in range(n):
      for j in range(i):
        ctx.assume(ctx.Or(m[i] - m[j] > 1e-3, m[j] - m[i] > 1e-3))
        ctx.assume(f[j] + 1e-3 < f[i])
    fr.append((f, m, p))

  def run(frames, **s):
    t = mm.ModalTracker(**kw(**s)).reset()
    for f, m, p in frames:
      t(ctx.arr(f, float), ctx.arr(m, float), ctx.arr(p, float))
    return [list(x) for x in (t.tracks_, t.all_tracks_)]

  def match(a, b, df=0, cf=1, dm=0, dp=0, msg=""):
    for x, y, what in zip(a, b, ("saved", "all")):
      ctx.check(len(x) == len(y), f"{msg}: as many tracks ({what})")
      for t, u in zip(x, y):
        ctx.check(u["start_frame"] == t["start_frame"] + df and len(u["freq"]) == len(t["freq"]) and len(u["mag"]) == len(t["mag"]), f"{msg}: tracks start and last the same")
        if len(u["freq"]) == len(t["freq"]):
          for k, g in (("freq", lambda v: v * cf), ("mag", lambda v: v + dm), ("phase", lambda v: v + dp)):
            for v, w in zip(list(t[k]), list(u[k])):
              if (isinstance(v, float) and v != v) or bool(ctx.isnan(v)):
                ctx.cover("merged")
                ctx.check(bool(ctx.isnan(w)), f"{msg}: gaps at the same frames")
              else:
                ctx.eq(w, g(v), f"{msg}: {k}", tol=1e-6)

  ref = run(fr)
  if ref[1]:
    ctx.cover("saved")
  if not ref[1] and sum(plan):
    ctx.cover("rejected")
  if reverse:
    ctx.cover("reverse")
  if strip is not None:
    ctx.cover("strip")
  ctx.cover(how)
  e = ([], [], [])
  if how == "rate":
    match(ref, run([([v * c for v in f], m, p) for f, m, p in fr], s=c), cf=c, msg="other sampling rate")
  elif how == "level":
    d = ctx.real("d", -40, 40)
    match(ref, run([(f, [v + d for v in m], p) for f, m, p in fr], d=d), dm=d, msg="other level")
  elif how == "phase":
    d = ctx.real("d", -7, 7)
    match(ref, run([(f, m, [v + d for v in p]) for f, m, p in fr]), dp=d, msg="other phase")
  elif how == "before":
    match(ref, run([e] * c + fr), df=c, msg="silence before")
  elif how == "after":
    one = run(fr + [e])
    match([one[0]], [run(fr + [e] * (c + 1))[0]], msg="silence after")
    # an empty frame ends every track
    ctx.check(len(one[0]) == len(one[1]) or strip is not None, "no track is active after silence")
  else:
    other = [([v * 8 + 15000 for v in f], [ctx.real(f"n{k}_{i}", -100, 0) for i in range(len(f))], p) for k, (f, m, p) in enumerate(reversed(fr))]
    for k, (f, m, p) in enumerate(other):
      n = [*fr[k][1], *m]
      for i, v in enumerate(n):
        for w in n[:i]:
          ctx.assume(ctx.Or(v - w > 1e-3, w - v > 1e-3))
    mixed = run([(a[0] + b[0], a[1] + b[1], a[2] + b[2]) for a, b in zip(fr, other)])
    low = [[t for t in x if bool(t["freq"][0] < 8000)] for x in mixed]
    match(ref, low, msg="another band")


def sound(ctx, m):
  a, g = ctx.real("a", .1, .4), ctx.real("g", .5, .99)
  for v, lo, hi in ((a, .1, .4), (g, .5, .99)):
    l = ctx.fn("log10")(v)
    ctx.assume(ctx.And(l >= math.log10(lo) - 1e-9, l <= math.log10(hi) + 1e-9))
  x = []
  for j in range(m):
    for i in range(N):
      v = a * round(math.cos(2 * math.pi * 2 * i / N + .25), 12)
      for _ in range(j):
        v = v * g
      x.append(v)
  return x


def audio(ctx, how, m, c, reverse=False, padded=False):
  cls = ctx.mod("sample.sample").SAMPLE
  if ctx.symbolic and how != "sign":
    ctx.patch(ctx.np, "angle", lambda z: ctx.np.zeros(len(z)))  # phases are not looked at
  kw = lambda s=1, d=0: dict(regressor=line(ctx), sinusoidal__w=window(ctx, .5), sinusoidal__n=N, sinusoidal__t=-80 + d, sinusoidal__padded=padded, sinusoidal__tracker__fs=1000 * s, sinusoidal__tracker__h=N,
                             sinusoidal__tracker__min_sine_dur=.016 / s, sinusoidal__tracker__frequency_bounds=(20 * s, 450 * s), sinusoidal__tracker__peak_threshold=-70. + d,
                             sinusoidal__tracker__freq_dev_offset=9 * s, sinusoidal__tracker__reverse=reverse)
  x = sound(ctx, m)
  ref = cls(**kw()).fit(ctx.arr(x, float))
  if ref.param_matrix_.shape[1]:
    ctx.cover("modes")
  ctx.cover("audio " + how)
  g = 1
  if how == "rate":
    o = cls(**kw(c)).fit(ctx.arr(x, float))
    s = (c, 1 / c, 1)
  elif how == "level":
    g = c
    o = cls(**kw(1, 20 * math.log10(c))).fit(ctx.arr([v * c for v in x], float))
    s = (1, 1, c)
  else:
    g = -1
    o = cls(**kw()).fit(ctx.arr([-v for v in x], float))
    s = (1, 1, 1)
  rows = lambda k, p: [v * k for v in ctx.np.ravel(p)]
  ctx.check(o.param_matrix_.shape == ref.param_matrix_.shape, "as many modes")
  if o.param_matrix_.shape == ref.param_matrix_.shape:
    for i, (r, k) in enumerate(zip(ref.param_matrix_, s)):
      for v, w in zip(list(ctx.np.ravel(r)), list(ctx.np.ravel(o.param_matrix_[i]))):
        ctx.eq(w, v * k, f"{how}: {('frequency', 'decay', 'amplitude')[i]}", tol=1e-6)
    for a, b, k, what in ((ref.freqs_, o.freqs_, s[0], "frequencies"), (ref.decays_, o.decays_, s[1], "decays"), (ref.amps_, o.amps_, s[2], "amplitudes")):
      alike(ctx, o_sorted(ctx, b), ctx.arr(rows(k, o_sorted(ctx, a)), float), f"{how}: {what}")
    ctx.cover("predicted")
    del g


def o_sorted(ctx, v):
  return ctx.np.ravel(v)


def configs(tier):
  th = tier == "thorough"
  o = {"max_paths": 4000}
  plans = [[1, 1, 0, 1], [2, 2], [1, 2, 1]] + [[1, 1, 0, 1, 1]] + ([[2, 1, 2], [1, 0, 1, 0, 1], [2, 2, 2]] if th else [])
  for plan in plans:
    for how, c in (("rate", 2), ("rate", .5), ("level", 1), ("phase", 1), ("before", 2), ("after", 2), ("apart", 1)):
      p = plan + [0] if how != "after" else plan
      if how == "apart" and max(plan) > 1:
        continue
      name = f"{how} {c} {plan}"
      yield name, tracker, dict(plan=p, how=how, c=c), o
      if plan == [1, 1, 0, 1, 1]:
        yield name + " single", tracker, dict(plan=p, how=how, c=c, strategy="single"), o
      if plan == [1, 1, 0, 1]:
        if how not in ("before", "after"):
          yield name + " reverse", tracker, dict(plan=p, how=how, c=c, reverse=True, threshold=-60.), o
          yield name + " strip reverse", tracker, dict(plan=p, how=how, c=c, reverse=True, strip=.5), o
          yield name + " strip", tracker, dict(plan=p, how=how, c=c, strip=.4), o
        if how == "rate":
          yield name + " narrow", tracker, dict(plan=p, how=how, c=c, off=.25), o
        yield name + " dur", tracker, dict(plan=p, how=how, c=c, dur=.6), o
        yield name + " bound", tracker, dict(plan=p, how=how, c=c, bound=True, threshold=-40.), o
  for m in (2,) if not th else (2, 3):
    for how, cs in (("rate", (2, .5)), ("level", (2, .25)), ("sign", (1,))):
      for c in cs:
        for r, pd in ((False, False), (True, False), (False, True)):
          if pd and (how != "rate" or c != 2):
            continue
          yield f"audio {how} {c} {m} reverse={r} padded={pd}", audio, dict(how=how, m=m, c=c, reverse=r, padded=pd), {"mono": True, "snap": True, "exp_split": True}
