"""C01 frame-by-frame association of peaks to tracks"""
BOUNDS = ("tracker histories of 2 frames from reset (the second frame is the step from an arbitrary list of active tracks), "
          "3-frame histories with one peak; <=3 active tracks, <=3 peaks; all frequencies, magnitudes, offset and slope symbolic")
OUTSIDE = "more than 3 tracks or peaks in a frame; peaks of exactly equal magnitude"
ASSUMPTIONS = ["peak magnitudes within a frame are distinct", "peak identity is carried by a unique phase value"]
COVERS = {"continued", "rejected", "contested", "ended"}


def order_of(ctx, mags):
  """indices by decreasing magnitude (forks, the code has decided the same)"""
  o = []
  for i, m in enumerate(mags):
    j = len(o)
    while j > 0 and m > mags[o[j - 1]]:
      j -= 1
    o.insert(j, i)
  return o


def h(ctx, sizes, modal=False):
  sm, mm = ctx.mod("sample.sms.sm"), ctx.mod("sample.sms.mm")
  cls = mm.ModalTracker if modal else sm.SineTracker
  off, slope = ctx.real("offset"), ctx.real("slope")
  tr = cls(max_n_sines=10)
  tr.track_ok = lambda t: True  # every track is reported
  tr.set_params(freq_dev_offset=off, freq_dev_slope=slope)
  tr.reset()
  frames = []
  for k, n in enumerate(sizes):
    f = ctx.reals(f"f{k}_", n)
    m = ctx.reals(f"m{k}_", n)
    for i in range(n):
      for j in range(i):
        ctx.assume(m[i] != m[j])
    ph = [float(100 * k + i) for i in range(n)]
    frames.append((f, m, ph))
    pre = chains(tr)
    tr(ctx.arr(f, float), ctx.arr(m, float), ctx.arr(ph, float))
    post = chains(tr)
    step(ctx, frames, k, pre, post, off, slope)


def chains(tr):
  """[(start_frame, tags)] of every reported track"""
  out = []
  for t in tr.all_tracks_:
    out.append((int(t["start_frame"]), tuple(int(p) for p in t["phase"]), t))
  return out


def step(ctx, frames, k, pre, post, off, slope):
  f, m, ph = frames[k]
  n = len(f)
  active = [(s, p) for s, p, _ in pre if p and p[-1] // 100 == k - 1]
  ended = [(s, p) for s, p, _ in pre if not (p and p[-1] // 100 == k - 1)]
  postd = [(s, p) for s, p, _ in post]
  # histories of finished tracks are not altered, no track disappears
  for e in ended:
    ctx.check(postd.count(e) >= 1, "a finished track is kept unaltered")
  took = {}
  for ti, (s, p) in enumerate(active):
    cont = [q for (s2, q) in postd if s2 == s and q[:len(p)] == p]
    ctx.check(len(cont) == 1, "an active track is still there once")
    if len(cont) != 1:
      return
    extra = cont[0][len(p):]
    ctx.check(len(extra) <= 1 and all(x // 100 == k for x in extra), "at most the new frame's peak is appended")
    if extra:
      pk = extra[0] - 100 * k
      ctx.check(pk not in took.values(), "a peak continues at most one track")
      took[ti] = pk
      ctx.cover("continued")
    else:
      ctx.cover("ended")
  # values stored are those of the peaks
  for s, p, t in post:
    ctx.check(len(t["freq"]) == len(t["mag"]) == len(p), "as many frequencies and magnitudes as phases")
    for i, tag in enumerate(p):
      kk, pi = divmod(tag, 100)
      ctx.check(kk == s + i, "consecutive frames from the start frame")
      ctx.same(t["freq"][i], frames[kk][0][pi], "stored frequency is that of the peak")
      ctx.same(t["mag"][i], frames[kk][1][pi], "stored magnitude is that of the peak")
  # the association rule
  last = []
  for s, p in active:
    kk, pi = divmod(p[-1], 100)
    last.append(frames[kk][0][pi])
  free = list(range(len(active)))
  inv = {v: k2 for k2, v in took.items()}
  for p in order_of(ctx, m):
    thr = off + slope * f[p]
    if p in inv:
      t = inv[p]
      ctx.check(t in free, "the track was not already continued by a louder peak")
      d = abs(last[t] - f[p])
      ctx.check(ctx.And(*[d <= abs(last[u] - f[p]) for u in free]), "the closest free track is continued")
      ctx.check(d < thr, "continued only when strictly closer than the threshold")
      if len(free) > 1:
        ctx.cover("contested")
      if t in free:
        free.remove(t)
    else:
      ctx.check(ctx.And(*[abs(last[u] - f[p]) >= thr for u in free]),
                "a peak continues no track only when none is free and close enough")
      if free:
        ctx.cover("rejected")


def configs(tier):
  q = [("3x2", h, dict(sizes=[3, 2])), ("2x3", h, dict(sizes=[2, 3])), ("2x2", h, dict(sizes=[2, 2])),
       ("2x2modal", h, dict(sizes=[2, 2], modal=True)), ("1x3", h, dict(sizes=[1, 3])), ("3x1", h, dict(sizes=[3, 1])),
       ("1x1x1", h, dict(sizes=[1, 1, 1])), ("2x0", h, dict(sizes=[2, 0])), ("0x2", h, dict(sizes=[0, 2])),
       ("1x2x1", h, dict(sizes=[1, 2, 1]))]
  if tier == "thorough":
    q = [("3x3", h, dict(sizes=[3, 3])), ("2x2x2", h, dict(sizes=[2, 2, 2])), ("1x1x1x1", h, dict(sizes=[1, 1, 1, 1]))] + q
  return q
