"""C18 outcome of the beat decision"""
from checks.lib import fake_modal, recording_regressor
BOUNDS = "0..3 tracks; every fitted octuple, every regression slope and intercept, every threshold, every decision"
OUTSIDE = "the beat and the single-partial regressions themselves (stand-ins with arbitrary results)"
ASSUMPTIONS = ["the single-partial regression finds a decay (non-zero slope)"]
COVERS = {"beat", "single", "no tracks", "arbitrary decision"}
EPS = 2.0**-52


def tracks_of(ctx, n, rows):
  np = ctx.np
  r = []
  for i in range(n):
    m = rows + i
    r.append({"start_frame": i, "freq": ctx.arr(ctx.reals(f"fr{i}_", m, 1, 1000), float),
              "mag": ctx.arr(ctx.reals(f"mg{i}_", m, -80, 0), float), "phase": np.zeros(m)})
  return r


def beat_model(ctx, octs):
  base = ctx.mod("sklearn.base")
  log = []

  class FakeBeat(base.BaseEstimator):

    def __init__(self, fs=100):
      self.fs = fs

    def fit(self, t, a, f, **kw):
      log.append((self.fs, t, a, f))
      self.params_ = tuple(octs[len(log) - 1])
      return self

  return FakeBeat(), log


def octuple(ctx, i):
  return (ctx.reals(f"a{i}_", 2, -1, 1) + ctx.reals(f"f{i}_", 2, 1, 1000) + ctx.reals(f"d{i}_", 2, .01, 10) +
          ctx.reals(f"p{i}_", 2, -3, 3))


def fitting(ctx, n, mode, save, array=False):
  bds, dec, sm = ctx.mod("sample.beatsdrop.sample"), ctx.mod("sample.beatsdrop.decision"), ctx.mod("sample.sample")
  res = [(ctx.real(f"k{i}", -200, -.5), ctx.real(f"q{i}", -80, 0)) for i in range(n)]
  octs = [octuple(ctx, i) for i in range(n)]
  tr = tracks_of(ctx, n, 2)
  fs = 16.
  if mode == "default":
    th = ctx.real("th", 0, 1e18)
    d = dec.AlmostNotABeatDecisor(th=th, intermediate__save=save)
  else:
    flags = ctx.bools("beat", n)
    seen = []

    class Custom(dec.BeatDecisor):

      def decide_beat(self, i, t, track, beatsdrop, params):
        seen.append((i, t, track, beatsdrop, params))
        return flags[i]

    d = Custom(intermediate__save=save)
  reg, log = recording_regressor(ctx, res)
  beat, blog = beat_model(ctx, [ctx.arr(o, float) for o in octs] if array else octs)
  m = bds.SAMPLEBeatsDROP(sinusoidal=fake_modal(ctx, tr, fs=fs), regressor=reg, beatsdrop=beat, beat_decisor=d)
  r = m.fit(ctx.np.zeros(8))
  ctx.check(r is m, "fit returns the model")
  # what the plain model says
  reg2, log2 = recording_regressor(ctx, res)
  plain = sm.SAMPLE(sinusoidal=fake_modal(ctx, tr, fs=fs), regressor=reg2).fit(ctx.np.zeros(8)).param_matrix_
  want, decisions = [], []
  for i in range(n):
    a0, a1, f0, f1, d0, d1, p0, p1 = octs[i]
    if mode == "default":
      e = th * EPS
      ab = [ctx.ite(x < 0, -x, x) for x in (f0 - f1, a0, a1)]
      yes = bool(ctx.And(*[x > e for x in ab]))
    else:
      yes = bool(flags[i])
      ctx.cover("arbitrary decision")
    decisions.append(yes)
    ctx.cover("beat" if yes else "single")
    want += [(f0, d0, a0, p0), (f1, d1, a1, p1)] if yes else [(plain[0, i], plain[1, i], plain[2, i], 0.)]
  if n == 0:
    ctx.cover("no tracks")
  ctx.check(m.param_matrix_.shape == (4, len(want)), "one column per partial")
  for j, w in enumerate(want):
    for k, (v, name) in enumerate(zip(w, ("frequency", "decay", "amplitude", "phase"))):
      ctx.eq(m.param_matrix_[k, j], v, f"{name} of partial {j}")
    ctx.eq(m.freqs_[j], w[0], "frequencies")
    ctx.eq(m.decays_[j], w[1], "decays")
    ctx.eq(m.amps_[j], w[2], "amplitudes")
    ctx.eq(m.phases_[j], w[3], "phases")
  # data given to the beat regression
  ctx.check(len(blog) == n, "every track is fitted once")
  for i in range(n):
    ctx.eq(blog[i][0], fs, "sample rate of the beat regression")
    ctx.eq(ctx.np.reshape(blog[i][1], (-1,)), ctx.np.reshape(log[i][0], (-1,)), "same time axis as the regression")
    ctx.eq(ctx.np.reshape(blog[i][2], (-1,)), ctx.np.reshape(log[i][1], (-1,)), "same magnitudes as the regression")
    ctx.eq(blog[i][3], tr[i]["freq"], "frequency track")
  # decisions at the index of the track
  st = m.beat_decisor.intermediate
  if save and n:
    ctx.check(len(st["decision"]) == n, "one decision per track")
    for i in range(n):
      ctx.check(bool(st["decision"][i]) == decisions[i], f"decision of track {i}")
    if mode == "default":
      ctx.check(len(st["test"]) == n, "one test per track")
      for i in range(n):
        a0, a1, f0, f1 = octs[i][:4]
        for x, y in zip(st["test"][i], (f0 - f1, a0, a1)):
          ctx.eq(x, ctx.ite(y < 0, -y, y), "tested values")
  if not save:
    ctx.check(not st.get_state(), "nothing is stored unless enabled")


def direct(ctx, fit, idx):
  """one track straight through the decisor"""
  dec = ctx.mod("sample.beatsdrop.decision")
  o = octuple(ctx, 0)
  s = ctx.reals("s", 3, .01, 10)
  flag = ctx.bool("beat")
  other = octuple(ctx, 1)

  class Custom(dec.BeatDecisor):

    def decide_beat(self, i, t, track, beatsdrop, params):
      ctx.check(i == idx, "index of the track")
      return flag

  beat, blog = beat_model(ctx, [o])
  if not fit:
    beat.params_ = tuple(other)
  d = Custom(intermediate__save=True)
  tr = tracks_of(ctx, 1, 2)[0]
  r = d.track_params(idx, ctx.arr([0., 1.], float), tr, beat, tuple(s), fit=fit)
  ctx.check(len(blog) == int(fit), "fitted only on request")
  a0, a1, f0, f1, d0, d1, p0, p1 = o if fit else other
  w = [(f0, d0, a0, p0), (f1, d1, a1, p1)] if bool(flag) else [(s[0], s[1], s[2], 0.)]
  ctx.check(len(r) == len(w), "number of partials")
  for x, y in zip(r, w):
    ctx.eq(ctx.arr(list(x), float), ctx.arr(list(y), float), "parameters of the partial")
  dd = d.intermediate["decision"]
  ctx.check(len(dd) == idx + 1 and all(v is None for v in dd[:idx]), "stored at the index of the track")
  ctx.check(bool(dd[idx]) == bool(flag), "stored decision")
  # never a beat by default
  p, = dec.BeatDecisor().track_params(idx, ctx.arr([0., 1.], float), tr, beat, tuple(s))
  ctx.eq(ctx.arr(list(p), float), ctx.arr(s + [0.], float), "the base decisor never decides for a beat")


def configs(tier):
  q = [(f"default{n}{'s' if s else ''}{'a' if a else ''}", fitting, dict(n=n, mode="default", save=s, array=a))
       for n in range(3 if tier != "thorough" else 4) for s in (False, True) for a in (False, True) if not (a and n != 1)]
  q += [(f"custom{n}", fitting, dict(n=n, mode="custom", save=True)) for n in range(4)]
  q += [(f"direct{i}{f}", direct, dict(fit=f, idx=i)) for i in range(3) for f in (False, True)]
  return q
