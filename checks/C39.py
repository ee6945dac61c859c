"""C39 fitting again starts afresh"""
from checks.lib import fake_modal
BOUNDS = "trackers: histories of 1..3 frames with 0..2 peaks before and after the reset; sinusoidal model: 0..3 frames of 3..5 bins then 0..2; complete models: 0..3 tracks then 0..3 (serial); every value"
OUTSIDE = "longer histories; peaks of exactly equal magnitude in a frame"
ASSUMPTIONS = ["peak magnitudes within a frame are distinct"]
COVERS = {"tracker", "merge", "model", "sample", "shorter", "longer", "equal"}


def feed(ctx, trs, sizes, tag):
  for k, n in enumerate(sizes):
    f = ctx.reals(f"{tag}f{k}_", n, 1, 10000)
    m = ctx.reals(f"{tag}m{k}_", n, -80, 0)
    for i in range(n):
      for j in range(i):
        ctx.assume(m[i] != m[j])
    for tr in trs:
      tr(ctx.arr(f, float), ctx.arr(m, float), ctx.arr([100. * k + i for i in range(n)], float))


def state(ctx, tracks):
  return [(t["start_frame"], list(t["freq"]), list(t["mag"]), list(t["phase"])) for t in tracks]


def same_tracks(ctx, a, b, msg):
  ctx.check(len(a) == len(b), msg + ": number of tracks")
  for u, v in zip(a, b):
    ctx.same(u[0], v[0], msg + ": start frame")
    for x, y in zip(u[1:], v[1:]):
      ctx.check(len(x) == len(y), msg + ": length of the track")
      for p, q in zip(x, y):
        ctx.same(p, q, msg + ": values of the track")


def tracker(ctx, first, second, modal, **kw):
  sm, mm = ctx.mod("sample.sms.sm"), ctx.mod("sample.sms.mm")
  cls = mm.ModalTracker if modal else sm.SineTracker
  par = dict(fs=1, h=1, min_sine_dur=1, freq_dev_offset=20, **kw)
  a, b = cls(**par), cls(**par)
  r = a.reset()
  ctx.check(r is a, "reset returns the tracker")
  feed(ctx, [a], first, "a")
  old = list(a.all_tracks_)
  oldv = state(ctx, old)
  a.reset()
  b.reset()
  ctx.check(a.n_active_tracks == 0 and not list(a.all_tracks_), "no track after a reset")
  feed(ctx, [a, b], second, "b")
  ctx.cover("tracker")
  if any(v != v for t in b.tracks_ for v in t["freq"] if isinstance(v, float)):
    ctx.cover("merge")
  same_tracks(ctx, state(ctx, a.all_tracks_), state(ctx, b.all_tracks_), "same tracks as a new tracker")
  ctx.check(a.n_active_tracks == b.n_active_tracks, "same active tracks as a new tracker")
  same_tracks(ctx, state(ctx, old), oldv, "tracks reported before are not altered")


def model(ctx, first, second, bins, save, modal=False, reverse=False):
  sm, mm = ctx.mod("sample.sms.sm"), ctx.mod("sample.sms.mm")
  cls = mm.ModalModel if modal else sm.SinusoidalModel
  n = 2 * (bins - 1)
  frames = {"a": [], "b": []}
  for t, m in (("a", first), ("b", second)):
    for k in range(m):
      frames[t].append((ctx.arr(ctx.reals(f"{t}x{k}_", bins, -200, 0), float), ctx.np.zeros(bins)))
  which = []

  class Fake(cls):

    def __init__(self, w=None, n=2048, t=-90, tracker=None, intermediate=None, padded=False, **kwargs):
      super().__init__(w=w, n=n, t=t, tracker=tracker, intermediate=intermediate, padded=padded, **kwargs)

    def dft_frames(self, x):
      return iter(frames[which[-1]])

  par = dict(w=ctx.np.ones(n), n=n, tracker__fs=64, tracker__h=16, tracker__min_sine_dur=.1, intermediate__save=save)
  if reverse:
    par["tracker__reverse"] = True
  a, b = Fake(**par), Fake(**par)
  x = ctx.np.zeros(8)
  which.append("a")
  a.fit(x)
  old = a.tracks_
  oldv = state(ctx, old)
  which.append("b")
  th = ctx.real("t", -150, 0)
  r = a.fit(x, t=th)
  ctx.check(r is a, "fit returns the model")
  b.fit(x, t=th)
  ctx.cover("model")
  same_tracks(ctx, state(ctx, a.tracks_), state(ctx, b.tracks_), "same tracks as a new model")
  same_tracks(ctx, state(ctx, old), oldv, "tracks of the first fit are not altered")
  compare_storage(ctx, a.intermediate, b.intermediate)
  if save:
    ctx.check(len(a.intermediate.get_state(deepcopy=False).get("stft", ())) == second, "one stored spectrum per frame of the last fit")
  else:
    ctx.check(not a.intermediate.get_state(), "nothing is stored unless enabled")


def compare_storage(ctx, a, b):
  sa, sb = a.get_state(deepcopy=False), b.get_state(deepcopy=False)
  ctx.check(set(sa) == set(sb), "same stored quantities as a new model")
  for k in sb:
    ctx.check(len(sa.get(k, ())) == len(sb[k]), f"as many stored values as a new model ({k})")
    for u, v in zip(sa.get(k, ()), sb[k]):
      deep(ctx, u, v, f"same stored values as a new model ({k})")


def deep(ctx, u, v, msg):
  if isinstance(v, (tuple, list)):
    ctx.check(isinstance(u, (tuple, list)) and len(u) == len(v), msg)
    for p, q in zip(u, v):
      deep(ctx, p, q, msg)
  elif v is None or u is None:
    ctx.check(u is v, msg)
  elif hasattr(v, "shape") and tuple(v.shape):
    ctx.check(hasattr(u, "shape") and tuple(u.shape) == tuple(v.shape), msg)
    for p, q in zip(ctx.np.reshape(u, (-1,)), ctx.np.reshape(v, (-1,))):
      ctx.same(p, q, msg)
  else:
    ctx.check(ctx.Or(u == v, ctx.And(u != u, v != v)), msg)


def whole(ctx, first, second, beats, save=True, decisor="default"):
  base = ctx.mod("sklearn.base")

  class Reg(base.BaseEstimator):

    def fit(self, x, y):
      y = ctx.np.reshape(y, (-1,))
      self.k_, self.q_ = y[0], y[1]
      return self

  class Beat(base.BaseEstimator):

    def __init__(self, fs=100):
      self.fs = fs

    def fit(self, t, a, f, **kw):
      self.params_ = (a[0], a[1], f[0], f[1], 1., 2., a[0], a[1])
      return self

  tracks = {}
  for t, m in (("a", first), ("b", second)):
    tracks[t] = [{"start_frame": i, "freq": ctx.arr(ctx.reals(f"{t}fr{i}_", 2, 1, 1000), float),
                  "mag": ctx.arr(ctx.reals(f"{t}mg{i}_", 2, -80, 10), float), "phase": ctx.np.zeros(2)} for i in range(m)]

  def build():
    fm = fake_modal(ctx, tracks["a"], fs=16., intermediate__save=save)
    kw = dict(sinusoidal=fm, regressor=Reg())
    if not beats:
      return ctx.mod("sample.sample").SAMPLE(**kw)
    dec = ctx.mod("sample.beatsdrop.decision")

    class Custom(dec.BeatDecisor):

      def decide_beat(self, i, t, track, beatsdrop, params):
        return bool(track["freq"][0] < 500)

    d = (dec.AlmostNotABeatDecisor if decisor == "default" else Custom)(intermediate__save=save)
    return ctx.mod("sample.beatsdrop.sample").SAMPLEBeatsDROP(beatsdrop=Beat(), beat_decisor=d, **kw)

  a, b = build(), build()
  x = ctx.np.zeros(8)
  a.fit(x)
  pm = a.param_matrix_
  keep = [list(r) for r in pm]
  a.sinusoidal.given = tracks["b"]
  b.sinusoidal.given = tracks["b"]
  a.fit(x)
  b.fit(x)
  ctx.cover("sample")
  ctx.cover("shorter" if second < first else "longer" if second > first else "equal")
  ctx.check(tuple(a.param_matrix_.shape) == tuple(b.param_matrix_.shape), "as many modes as a new model")
  deep(ctx, a.param_matrix_, b.param_matrix_, "same parameters as a new model")
  for r, s in zip(pm, keep):
    for u, v in zip(r, s):
      ctx.same(u, v, "parameters of the first fit are not altered")
  if beats:
    compare_storage(ctx, a.beat_decisor.intermediate, b.beat_decisor.intermediate)
    if save and second:
      ctx.check(len(a.beat_decisor.intermediate["decision"]) == second, "one decision per track of the last fit")
  ctx.check(a.max_n_modes is None and a.sinusoidal.fs == 16., "the settings are not altered")


def configs(tier):
  q = [("s2,1-2", tracker, dict(first=[2, 1], second=[2], modal=False)), ("s1,1-1,1", tracker, dict(first=[1, 1], second=[1, 1], modal=False)),
       ("s1,1,0-1,1", tracker, dict(first=[1, 1, 0], second=[1, 1], modal=False)),
       ("m1,1,0-1,1,0", tracker, dict(first=[1, 1, 0], second=[1, 1, 0], modal=True)),
       ("m1,1-0,1,1", tracker, dict(first=[1, 1], second=[0, 1, 1], modal=True, reverse=True, strip_t=1)),
       ("m1,1,0-merge", tracker, dict(first=[1, 1, 0], second=[1, 1, 0, 1, 1, 0], modal=True))]
  q += [(f"model{i}-{j}{'s' if s else ''}", model, dict(first=i, second=j, bins=b, save=s))
        for i, j, b, s in [(2, 1, 3, True), (1, 2, 3, True), (2, 0, 3, True), (2, 2, 3, False), (1, 1, 5, True)]]
  q += [("modal2-1", model, dict(first=2, second=1, bins=3, save=True, modal=True)),
        ("modalrev2-2", model, dict(first=2, second=2, bins=3, save=True, modal=True, reverse=True))]
  q += [(f"beats{i}-{j}", whole, dict(first=i, second=j, beats=True)) for i, j in [(2, 1), (1, 2), (1, 1), (2, 0)]]
  q += [("beats3-1", whole, dict(first=3, second=1, beats=True, decisor="custom")),
        ("beatsnosave", whole, dict(first=2, second=1, beats=True, save=False)),
        ("plain2-1", whole, dict(first=2, second=1, beats=False)), ("plain1-3", whole, dict(first=1, second=3, beats=False)),
        ("plain2-0", whole, dict(first=2, second=0, beats=False))]
  if tier == "thorough":
    q += [("s2,2-2,2", tracker, dict(first=[2, 2], second=[2, 2], modal=False)), ("model3-2", model, dict(first=3, second=2, bins=3, save=True)),
          ("model2-2b5", model, dict(first=2, second=2, bins=5, save=True)), ("beats3-2", whole, dict(first=3, second=2, beats=True)),
          ("beats3-3", whole, dict(first=3, second=3, beats=True, decisor="custom"))]
  return q
