"""C03 acceptance criteria for tracks"""
import math
BOUNDS = ("tracks of 1..5 frames (up to 6 thorough) of a single-peak history; all frequencies, magnitudes, bounds, peak "
          "threshold, minimum duration, sampling frequency and hop symbolic")
OUTSIDE = "longer tracks (the least-squares line is encoded exactly for each length)"
ASSUMPTIONS = ["sklearn LinearRegression returns the exact least-squares line"]
COVERS = {"kept", "dropped", "short", "active"}


def h(ctx, n, modal, bnd=("v", "v"), reverse=False, active=False, sym_dur=False):
  sm, mm = ctx.mod("sample.sms.sm"), ctx.mod("sample.sms.mm")
  if sym_dur:
    fs, hop, dur = ctx.int("fs", 1, 192000), ctx.int("h", 1, 8192), ctx.real("dur", 0, 10)
    ctx.assume(dur * fs <= (n + 2) * hop)
  else:
    fs, hop, dur = 1, 1, n - 1 if n > 2 else 0
  kw = dict(fs=fs, h=hop, min_sine_dur=dur, freq_dev_offset=1e9, freq_dev_slope=0)
  lo = hi = thr = None
  if modal:
    if bnd[0] is not None:
      lo = ctx.real("flo", 0, 24000)
    if bnd[1] is not None:
      hi = ctx.real("fhi", 0, 24000)
    thr = ctx.real("thr", -200, 0)
    tr = mm.ModalTracker(frequency_bounds=(lo, hi), peak_threshold=thr, reverse=reverse, **kw)
  else:
    tr = sm.SineTracker(**kw)
  f, m = ctx.reals("f", n, 0, 24000), ctx.reals("m", n, -300, 100)
  tr.reset()
  for k in range(n):
    tr(ctx.arr([f[k]], float), ctx.arr([m[k]], float), ctx.arr([0.5], float))
  if not active:
    tr(ctx.arr([], float), ctx.arr([], float), ctx.arr([], float))
    kept = list(tr.tracks_)
    ctx.check(len(list(tr.all_tracks_)) == len(kept), "saved tracks are reported")
  else:
    ctx.check(len(list(tr.tracks_)) == 0, "an active track is not saved")
    ctx.cover("active")
    kept = list(tr.all_tracks_)
  # the criteria, independently
  minlen_ok = ctx.And(n >= 2, n * hop >= dur * fs)  # n >= ceil(dur*fs/h)
  cond = [minlen_ok]
  if modal:
    mean = sum(f[1:], f[0])
    if lo is not None:
      cond.append(mean >= lo * n)
    if hi is not None:
      cond.append(mean <= hi * n)
    # least squares over original time: magnitudes in original order
    y = m[::-1] if reverse else m
    sx = sum(range(n))
    sxx = sum(i * i for i in range(n))
    sy = sum(y[1:], y[0])
    sxy = sum([i * v for i, v in enumerate(y)][1:], 0 * y[0])
    den = n * sxx - sx * sx
    slope = n * sxy - sx * sy  # * 1/den, den > 0
    icpt = sxx * sy - sx * sxy  # * 1/den
    if n >= 2:
      cond += [slope <= 0, icpt >= thr * den]
  ok = ctx.And(*cond)
  ctx.cover("kept" if kept else "dropped")
  ctx.check(len(kept) <= 1, "at most one track")
  if kept:
    ctx.check(ok, "a reported track meets all the criteria")
    t = kept[0]
    ctx.eq(t["freq"], ctx.arr(f, float), "frequencies kept", tol=0)
    ctx.eq(t["mag"], ctx.arr(m, float), "magnitudes kept", tol=0)
    ctx.check(t["start_frame"] == 0, "start frame")
  else:
    ctx.check(ctx.Not(ok), "a track meeting all the criteria is reported")
    if n < 2:
      ctx.cover("short")


def configs(tier):
  q = []
  for n in (1, 2, 3, 4) + ((5, 6, 8) if tier == "thorough" else (5,)):
    for rev in (False, True):
      q.append((f"modal{n}{'r' if rev else ''}", h, dict(n=n, modal=True, reverse=rev)))
    q.append((f"sine{n}", h, dict(n=n, modal=False, sym_dur=True)))
  q += [("modal3dur", h, dict(n=3, modal=True, sym_dur=True)),
        ("modal2dur", h, dict(n=2, modal=True, sym_dur=True, reverse=True)),
        ("nolo", h, dict(n=3, modal=True, bnd=(None, "v"))), ("nohi", h, dict(n=3, modal=True, bnd=("v", None))),
        ("nob", h, dict(n=2, modal=True, bnd=(None, None))), ("sine3act", h, dict(n=3, modal=False, sym_dur=True, active=True)),
        ("modal3act", h, dict(n=3, modal=True, active=True)),
        ("modal3ract", h, dict(n=3, modal=True, active=True, reverse=True)), ("sine2act", h, dict(n=2, modal=False, sym_dur=True, active=True))]
  return q
