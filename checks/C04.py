"""C04 merging of interrupted tracks"""
BOUNDS = ("histories of 2 to 5 saved and active tracks of 1..3 frames with gaps of 0..3 frames (and overlapping ones), with "
          "saved tracks that are themselves merged; every frequency, magnitude, offset and slope symbolic; both strategies")
OUTSIDE = "histories with more or longer tracks; several tracks ending in the same frame"
ASSUMPTIONS = ["peak magnitudes within a frame are distinct"]
COVERS = {"merged", "alone", "rejected", "gap0", "chosen among several", "merged twice"}
HUGE = 1e7


def snap(ctx, tracks):
  return [(int(t["start_frame"]), list(t["freq"]), list(t["mag"]), list(t["phase"])) for t in tracks]


def mean(v):
  return sum(v[1:], v[0]) / len(v)


def is_gap(ctx, x):
  return x != x if isinstance(x, float) else bool(ctx.isnan(x))


def same_track(ctx, a, b, msg):
  ctx.check(a[0] == b[0] and len(a[1]) == len(b[1]) and len(a[2]) == len(b[2]) and len(a[3]) == len(b[3]), msg)
  if len(a[1]) == len(b[1]) and len(a[2]) == len(b[2]) and len(a[3]) == len(b[3]):
    for u, v in zip(a[1] + a[2] + a[3], b[1] + b[2] + b[3]):
      ctx.same(u, v, msg)


def h(ctx, plan, strategy, ok=True):
  """plan: one token per frame: number of peaks, with the way tracks behave: c(ontinue all), n(ew tracks, no merge),
  m(erge whatever can be merged)"""
  mm = ctx.mod("sample.sms.mm")
  tr = mm.ModalTracker(max_n_sines=10, merge_strategy=strategy)
  accept = [True]
  tr.track_ok = lambda t: accept[0]
  tr.reset()
  for k, tok in enumerate(plan):
    n = int(tok[0])
    tr.set_params(freq_dev_offset={"c": HUGE, "n": -1., "m": HUGE}[tok[1]], freq_dev_slope=0.)
    f, m = ctx.reals(f"f{k}_", n, 0, 24000), ctx.reals(f"m{k}_", n)
    for i in range(n):
      for j in range(i):
        ctx.assume(m[i] != m[j])
    tr(ctx.arr(f, float), ctx.arr(m, float), ctx.arr([100. * k + i for i in range(n)], float))
  k = len(plan)
  saved = snap(ctx, tr.tracks_)
  every = snap(ctx, tr.all_tracks_)
  act = [t for t in every if int(t[3][-1]) // 100 == k - 1]
  ctx.check(len(act) == 1 and len(saved) == len(every) - 1, "one active track, the others are saved")
  if len(act) != 1 or len(saved) != len(every) - 1:
    return
  t = act[0]
  off, slope = ctx.real("offset"), ctx.real("slope")
  tr.set_params(freq_dev_offset=off, freq_dev_slope=slope)
  accept[0] = ok
  tr(ctx.arr([], float), ctx.arr([], float), ctx.arr([], float))
  accept[0] = True
  after = snap(ctx, tr.tracks_)
  thr = off + slope * t[1][0]
  if not ok:
    ctx.cover("rejected")
    ctx.check(len(after) == len(saved), "a rejected track is neither saved nor joined")
    for a, b in zip(saved, after):
      same_track(ctx, a, b, "saved tracks are left alone by a rejected one")
    return
  cand = [i for i, u in enumerate(saved) if u[0] + len(u[1]) < t[0]]
  if any(u[0] + len(u[1]) == t[0] for u in saved):
    ctx.cover("gap0")
  diff = {}
  for i in cand:
    u = saved[i]
    if strategy == "single":
      diff[i] = abs(u[1][-1] - t[1][0])
    else:
      diff[i] = abs(mean([x for x in u[1] if not is_gap(ctx, x)]) - mean(t[1]))
  if len(after) == len(saved) + 1:
    ctx.cover("alone")
    for a, b in zip(saved, after):
      same_track(ctx, a, b, "saved tracks are unaltered when the track is kept on its own")
    same_track(ctx, t, after[-1], "the track is saved as it is")
    for i in cand:
      ctx.check(diff[i] >= thr, "kept on its own only if no earlier track is close enough")
    return
  ctx.check(len(after) == len(saved), "the track is either joined or saved")
  if len(after) != len(saved):
    return
  ctx.cover("merged")
  changed = [i for i, (a, b) in enumerate(zip(saved, after)) if len(a[1]) != len(b[1])]
  ctx.check(len(changed) == 1, "exactly one track is extended")
  if len(changed) != 1:
    return
  i = changed[0]
  for j, (a, b) in enumerate(zip(saved, after)):
    if j != i:
      same_track(ctx, a, b, "other saved tracks are unaltered")
  ctx.check(i in cand, "the earlier track ended before the new one started, with a gap")
  if i not in cand:
    return
  ctx.check(ctx.And(*[diff[i] <= diff[j] for j in cand]), "the closest candidate is extended")
  ctx.check(diff[i] < thr, "only when closer than the threshold")
  if len(cand) > 1:
    ctx.cover("chosen among several")
  u, w = saved[i], after[i]
  if any(is_gap(ctx, x) for x in u[1]):
    ctx.cover("merged twice")
  ctx.check(w[0] == u[0], "the joined track starts where the earlier one did")
  n = t[0] + len(t[1]) - u[0]
  for q in (1, 2, 3):
    ctx.check(len(w[q]) == n, "the joined track ends where the new one did")
    if len(w[q]) != n:
      return
    for k in range(n):
      if k < len(u[q]):
        ctx.same(w[q][k], u[q][k], "frames of the earlier track stay in place")
      elif k < t[0] - u[0]:
        ctx.check(is_gap(ctx, w[q][k]), "missing frames are not-a-number")
      else:
        ctx.same(w[q][k], t[q][k - (t[0] - u[0])], "frames of the new track stay in place")


def configs(tier):
  plans = {
      "gap1": "1c 1c 0n 1c 1c", "gap2": "1c 0n 0n 1c", "gap0": "1c 1n 1c", "gap3": "1c 0n 0n 0n 1c 1c",
      "two": "1c 0n 1c 0n 1c", "twolong": "1c 1c 0n 0n 1c 0n 1c 1c", "merged": "1c 0n 1c 0m 1c", "gap0two": "1c 0n 1c 1n 1c",
      "mergedlong": "1c 1c 0n 0n 1c 0m 0n 1c 1c", "pair": "2c 0n 1c", "pairlong": "1c 2c 0n 1c", "none": "0n 1c",
      "overlap": "1c 2c 1c 0n 1c"
  }
  if tier == "thorough":
    plans.update({"three": "1c 0n 1c 0n 1c 0n 1c", "pair2": "2c 2c 0n 0n 1c 1c", "merged3": "1c 0n 1c 0m 0n 1c 0m 1c",
                  "mixed": "2c 0n 1c 0m 1c 0n 1c"})
  r = []
  for name, p in plans.items():
    for st in ("average", "single"):
      r.append((f"{name}-{st}", h, dict(plan=p.split(), strategy=st)))
  r += [("rej", h, dict(plan="1c 0n 1c".split(), strategy="average", ok=False))]
  return r
