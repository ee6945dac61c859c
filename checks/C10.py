"""C10 tracks are placed on the original time axis"""
from checks.lib import fake_modal, recording_regressor
import math
BOUNDS = ("1 or 2 tracks of 2..5 frames with missing frames at any interior position; all frequencies, magnitudes, start "
          "frame, sampling frequency, hop symbolic; windows of 1..5 samples, padded or not, reversed or not")
OUTSIDE = "longer tracks and windows"
COVERS = {"padded", "plain", "reversed", "gaps", "forward"}
NAN = float("nan")


def h(ctx, sizes, gaps, padded, reverse, w, nx=7):
  gaps = {tuple(g) for g in gaps}
  smp = ctx.mod("sample.sample")
  np = ctx.np
  fs, hop = ctx.int("fs", 1, 192000), ctx.int("h", 1, 8192)
  tracks, raw = [], []
  for k, n in enumerate(sizes):
    st = ctx.int(f"start{k}", 0, 10**6)
    vals = {}
    for q in ("freq", "mag", "phase"):
      v = ctx.reals(f"{q}{k}_", n)
      vals[q] = [NAN if (k, i) in gaps else v[i] for i in range(n)]
    raw.append((st, vals, n))
    tracks.append(dict(start_frame=st, **{q: ctx.arr(v, float) for q, v in vals.items()}))
  reg, log = recording_regressor(ctx, [(ctx.npreal(f"k{i}", -100, -1), ctx.npreal(f"q{i}", -100, 0)) for i in range(len(sizes))])
  sm = fake_modal(ctx, tracks, w=np.ones(w), padded=padded, tracker__fs=fs, tracker__h=hop, tracker__reverse=reverse)
  seen = []

  def reduce_(f):
    seen.append(f)
    return f[0]

  m = smp.SAMPLE(sinusoidal=sm, regressor=reg, freq_reduce=reduce_)
  m.fit(np.zeros(nx))
  ctx.check(len(log) == len(sizes), "every track is fitted once")
  if len(log) != len(sizes):
    return
  ctx.cover("padded" if padded else "plain")
  ctx.cover("reversed" if reverse else "forward")
  for k, (st, vals, n) in enumerate(raw):
    keep = [i for i in range(n) if (k, i) not in gaps]
    if len(keep) < n:
      ctx.cover("gaps")
    t, y = np.reshape(log[k][0], (-1,)), log[k][1]
    ctx.check(len(t) == len(y) == len(seen[k]) == len(keep), "missing frames are dropped, and only those")
    if not len(t) == len(y) == len(seen[k]) == len(keep):
      return
    for j, i in enumerate(keep):
      when = (st + i) * hop / fs + (0 if padded else w / 2 / fs)
      if reverse:
        when = nx / fs - when
      ctx.eq(t[j], when, "time of the frame", tol=1e-9)
      ctx.eq(y[j], vals["mag"][i] + 20 * math.log10(2), "magnitude with the spectral halving undone", tol=1e-9)
      ctx.same(seen[k][j], vals["freq"][i], "frequency of the frame")
    for q in ("freq", "mag", "phase"):
      ctx.eq(tracks[k][q], ctx.arr(vals[q], float), "the tracked data is not modified", tol=0)
    ctx.same(tracks[k]["start_frame"], st, "the start frame is not modified")


def configs(tier):
  q = []
  for padded in (False, True):
    for reverse in (False, True):
      for w in (1, 4, 5):
        q.append((f"3,4{'p' if padded else ''}{'r' if reverse else ''}w{w}", h,
                  dict(sizes=[3, 4], gaps=[(1, 1), (1, 2)], padded=padded, reverse=reverse, w=w)))
  q += [("2", h, dict(sizes=[2], gaps=[], padded=False, reverse=False, w=3)),
        ("5", h, dict(sizes=[5], gaps=[(0, 1), (0, 3)], padded=False, reverse=True, w=2)),
        ("4", h, dict(sizes=[4], gaps=[(0, 1), (0, 2)], padded=True, reverse=False, w=2)),
        ("many", h, dict(sizes=[2, 3, 2], gaps=[(1, 1)], padded=False, reverse=False, w=4))]
  if tier == "thorough":
    q += [("8", h, dict(sizes=[8], gaps=[(0, 1), (0, 2), (0, 5)], padded=False, reverse=True, w=7)),
          ("wide", h, dict(sizes=[6, 6, 6], gaps=[(0, 3), (2, 2), (2, 3), (2, 4)], padded=True, reverse=True, w=6))]
  for c in q:
    c[2]["gaps"] = [tuple(g) for g in c[2]["gaps"]]
  return q
