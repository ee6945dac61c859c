"""C02 track capacity, births, conservation of peaks"""
BOUNDS = ("tracker histories of up to 4 frames with up to 3 peaks per frame from reset, maximum number of tracks 0..3; "
          "all frequencies, magnitudes, offset and slope symbolic")
OUTSIDE = "longer histories, more peaks per frame; peaks of exactly equal magnitude"
ASSUMPTIONS = ["peak magnitudes within a frame are distinct", "peak identity is carried by a unique phase value"]
COVERS = {"born", "refused", "continued", "gap"}


def state(tr):
  return [(int(t["start_frame"]), tuple(int(p) for p in t["phase"]), t) for t in tr.all_tracks_]


def h(ctx, sizes, cap, modal=False):
  sm, mm = ctx.mod("sample.sms.sm"), ctx.mod("sample.sms.mm")
  tr = (mm.ModalTracker if modal else sm.SineTracker)(max_n_sines=cap)
  tr.track_ok = lambda t: True
  off, slope = ctx.real("offset"), ctx.real("slope")
  if modal:
    off = ctx.real("offset0", 0, 0)
    slope = off
  tr.set_params(freq_dev_offset=off, freq_dev_slope=slope)
  tr.reset()
  for rnd in range(2 if modal else 1):
    if rnd:
      tr.reset()  # a reset forgets everything
      ctx.check(len(state(tr)) == 0, "no tracks after a reset")
    hist(ctx, tr, sizes, cap, rnd)


def hist(ctx, tr, sizes, cap, rnd):
  frames = []
  for k, n in enumerate(sizes):
    f, m = ctx.reals(f"f{rnd}_{k}_", n), ctx.reals(f"m{rnd}_{k}_", n)
    for i in range(n):
      for j in range(i):
        ctx.assume(m[i] != m[j])
    ph = [float(100 * k + i) for i in range(n)]
    frames.append((f, m))
    pre = state(tr)
    tr(ctx.arr(f, float), ctx.arr(m, float), ctx.arr(ph, float))
    post = state(tr)
    seen = []
    for s, p, t in post:
      ctx.check(len(p) >= 1 and all(tag // 100 == s + i for i, tag in enumerate(p)),
                "consecutive frames from the start frame")
      ctx.check(len(t["freq"]) == len(p) and len(t["mag"]) == len(p), "one value of each kind per frame")
      for i, tag in enumerate(p):
        kk, pi = divmod(tag, 100)
        ctx.same(t["freq"][i], frames[kk][0][pi], "frequency of the peak")
        ctx.same(t["mag"][i], frames[kk][1][pi], "magnitude of the peak")
      seen += p
    ctx.check(len(seen) == len(set(seen)), "a peak belongs to at most one track")
    active = [p for s, p, _ in post if p[-1] // 100 == k]
    ctx.check(len(active) <= cap, "never more active tracks than the maximum")
    ctx.check(tr.n_active_tracks == len(active), "number of active tracks as reported")
    # births
    cont = [p for p in active if len(p) > 1]
    born = sorted(p[0] - 100 * k for p in active if len(p) == 1)
    free = [i for i in range(n) if 100 * k + i not in {p[-1] for p in cont}]
    ctx.check(born == free[:max(0, cap - len(cont))], "free peaks start new tracks in order, up to the maximum")
    # nothing but the continued tracks changed, and none is lost
    postd = [(s, p) for s, p, _ in post]
    for s, p, _ in pre:
      ok = (s, p) in postd or (p[-1] // 100 == k - 1 and any(s2 == s and q[:-1] == p for s2, q in postd))
      ctx.check(ok, "every previous track is still there, unaltered but for the new peak")
    ctx.check(len(postd) == len(pre) + len(born), "the number of tracks grows by the births")
    if born:
      ctx.cover("born")
    if len(born) < len(free):
      ctx.cover("refused")
    if cont:
      ctx.cover("continued")
    if k and not n:
      ctx.cover("gap")


def configs(tier):
  q = [("2x2c1", h, dict(sizes=[2, 2], cap=1)), ("2x2c2", h, dict(sizes=[2, 2], cap=2)),
       ("2x2c3", h, dict(sizes=[2, 2], cap=3)), ("2x0x2c2", h, dict(sizes=[2, 0, 2], cap=2)),
       ("2x1x2c2", h, dict(sizes=[2, 1, 2], cap=2)), ("1x2x2c2", h, dict(sizes=[1, 2, 2], cap=2)),
       ("3x0c2", h, dict(sizes=[3, 0], cap=2)), ("0x1c1", h, dict(sizes=[0, 1], cap=1)),
       ("2x1c0", h, dict(sizes=[2, 1], cap=0)), ("1x3c2", h, dict(sizes=[1, 3], cap=2)),
       ("2x3c3", h, dict(sizes=[2, 3], cap=3)), ("3x1c3", h, dict(sizes=[3, 1], cap=3)),
       ("1x1x1x1c1", h, dict(sizes=[1, 1, 1, 1], cap=1)), ("2x1c2m", h, dict(sizes=[2, 0], cap=2, modal=True))]
  if tier == "thorough":
    q = [("2x2x2c2", h, dict(sizes=[2, 2, 2], cap=2)), ("2x2x2c3", h, dict(sizes=[2, 2, 2], cap=3)),
         ("3x3c3", h, dict(sizes=[3, 3], cap=3)), ("1x2x0x2c2", h, dict(sizes=[1, 2, 0, 2], cap=2)),
         ("1x1x1x1x1c2", h, dict(sizes=[1, 1, 1, 1, 1], cap=2))] + q
  return q
