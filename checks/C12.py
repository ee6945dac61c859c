"""C12 modal parameters derive from the fitted tracks"""
from checks.lib import fake_modal, recording_regressor
import math
BOUNDS = "0..3 tracks of 2 frames; every frequency, slope and intercept, each possibly zero or not finite"
OUTSIDE = "more tracks; overflow of the amplitude"
COVERS = {"all kept", "dropped", "empty", "zero slope"}
C = -40 * math.log10(math.e)
NAN, INF = float("nan"), float("inf")


def h(ctx, kinds):
  smp = ctx.mod("sample.sample")
  np = ctx.np
  n = len(kinds)
  f, k, q, tracks = [], [], [], []
  for i, kd in enumerate(kinds):
    f.append({"nf": NAN, "if": INF}.get(kd, ctx.npreal(f"f{i}", 0, 24000)))
    if kd == "any":
      k.append(ctx.npreal(f"k{i}", -10**4, 10**4))
    else:
      k.append({"nk": NAN, "zk": np.float64(0.)}.get(kd, ctx.npreal(f"k{i}", -10**4, -.001)))
    q.append({"nq": NAN, "iq": -INF}.get(kd, ctx.npreal(f"q{i}", -200, 200)))
    tracks.append(dict(start_frame=i, freq=ctx.arr([1., 2. + i], float), mag=ctx.arr([0., -1.], float), phase=ctx.arr([0., 0.], float)))
  reg, log = recording_regressor(ctx, list(zip(k, q)))
  order = []

  def reduce_(v):
    order.append(v)
    return f[len(order) - 1]

  m = smp.SAMPLE(sinusoidal=fake_modal(ctx, tracks, w=np.ones(2)), regressor=reg, freq_reduce=reduce_)
  ctx.check(m.fit(np.zeros(3)) is m, "fitting returns the model")
  for i, v in enumerate(order):
    ctx.same(v[1], 2. + i, "tracks are processed in order")
  pm = m.param_matrix_
  keep = []
  for i, kd in enumerate(kinds):
    if kd == "any":
      if k[i] == 0:
        ctx.cover("zero slope")
        continue
    if kd in ("any", "ok", "iq"):  # the amplitude of -inf dB is zero
      keep.append(i)
  ctx.check(tuple(pm.shape) == (3, len(keep)), "one column per valid track")
  if tuple(pm.shape) != (3, len(keep)):
    return
  ctx.cover("empty" if not n else "dropped" if len(keep) < n else "all kept")
  for j, i in enumerate(keep):
    d = C / k[i]
    a = 0. if kinds[i] == "iq" else ctx.fn("db2a")(q[i])
    ctx.same(pm[0, j], f[i], "frequency of the track")
    ctx.eq(pm[1, j], d, "decay of the slope", tol=1e-9)
    ctx.eq(pm[2, j], a, "amplitude of the intercept", tol=1e-9)
    ctx.same(m.freqs_[j], pm[0, j], "frequencies")
    ctx.same(m.decays_[j], pm[1, j], "decays")
    ctx.same(m.amps_[j], pm[2, j], "amplitudes")
    ctx.eq(m.energies_[j], d * a * a / 4, "energy", tol=1e-9)
  ctx.check(len(m.freqs_) == len(m.decays_) == len(m.amps_) == len(m.energies_) == len(keep), "as many modes as columns")


def setters(ctx, n):
  smp = ctx.mod("sample.sample")
  m = smp.SAMPLE()
  m.param_matrix_ = ctx.np.zeros((3, n))
  f, d, a = ctx.reals("f", n), ctx.reals("d", n), ctx.reals("a", n)
  m.freqs_ = ctx.arr(f, float)
  m.decays_ = ctx.arr(d, float)
  m.amps_ = ctx.arr(a, float)
  for i in range(n):
    ctx.same(m.param_matrix_[0, i], f[i], "frequency row")
    ctx.same(m.param_matrix_[1, i], d[i], "decay row")
    ctx.same(m.param_matrix_[2, i], a[i], "amplitude row")
    ctx.eq(m.energies_[i], d[i] * a[i] * a[i] / 4, "energy", tol=1e-9)
    ctx.eq(m.amps_[i], a[i], "amplitudes read back", tol=0)


def configs(tier):
  q = [("none", h, dict(kinds=[])), ("any3", h, dict(kinds=["any"] * 3)), ("setters", setters, dict(n=2))]
  bad = ["nf", "if", "nk", "zk", "nq", "iq"]
  for b in bad:
    q += [(b, h, dict(kinds=[b])), (f"ok,{b},ok", h, dict(kinds=["ok", b, "ok"])), (f"{b},any", h, dict(kinds=[b, "any"]))]
  if tier == "thorough":
    q += [("any5", h, dict(kinds=["any"] * 5))]
    q += [(f"{b},{c},ok", h, dict(kinds=[b, c, "ok"])) for b in bad for c in bad]
  return q
