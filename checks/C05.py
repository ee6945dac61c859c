"""C05 strip time"""
BOUNDS = ("histories of up to 4 tracks (saved and active) within up to 8 frames; strip time, sampling frequency and hop "
          "symbolic (fs 1..192000, hop 1..8192, strip time 0..60 s)")
OUTSIDE = "onsets later than the histories explored (the comparison is with a symbolic strip time, so every outcome occurs)"
COVERS = {"stripped", "kept", "nostrip", "reversed"}


def snap(tracks):
  return [(int(t["start_frame"]), len(t["freq"]), [int(p) for p in t["phase"]]) for t in tracks]


def h(ctx, plan, reverse):
  mm = ctx.mod("sample.sms.mm")
  fs, hop, st = ctx.int("fs", 1, 192000), ctx.int("h", 1, 8192), ctx.real("strip", 0, 60)
  tr = mm.ModalTracker(fs=fs, h=hop, reverse=reverse, freq_dev_offset=-1., freq_dev_slope=0., max_n_sines=10)
  accept = [True]
  tr.track_ok = lambda t: accept[0]
  tr.reset()
  for k, tok in enumerate(plan):
    n = int(tok[0])
    tr.set_params(freq_dev_offset={"c": 1e7, "n": -1.}[tok[1]], strip_t=None)
    f = [100. + 10 * i for i in range(n)]
    tr(ctx.arr(f, float), ctx.arr([-float(i) for i in range(n)], float), ctx.arr([100. * k + i for i in range(n)], float))
  total = len(plan)
  tr.set_params(strip_t=None)
  every = snap(tr.all_tracks_)
  ctx.check(sum(len(t[2]) for t in every) == sum(int(t[0]) for t in plan), "without a strip time every track is reported")
  ctx.cover("nostrip")
  tr.set_params(strip_t=st)
  got = snap(tr.all_tracks_)
  ctx.check(all(t in every for t in got), "only tracks reported without a strip time")
  if reverse:
    ctx.cover("reversed")
  for t in every:
    onset = total - (t[0] + t[1]) if reverse else t[0]
    # onset <= ceil(strip * fs / hop)
    cond = (onset - 1) * hop < st * fs
    if t in got:
      ctx.check(got.count(t) == 1, "reported once")
      ctx.check(cond, f"a track with onset {onset} is reported only within the strip time")
      ctx.cover("kept")
    else:
      ctx.check(ctx.Not(cond), f"a track with onset {onset} within the strip time is reported")
      ctx.cover("stripped")
  accept[0] = False
  ctx.check(all(t[2][-1] // 100 != total - 1 for t in snap(tr.all_tracks_)), "active tracks that are not accepted are not reported")


def configs(tier):
  plans = ["1c 1c 0n 1c 0n 1c 1c", "0n 2c 2c 0n 0n 1c", "0n 0n 1c 1n 1n 0n 0n 0n"]
  if tier == "thorough":
    plans += ["1c 1n 2n 1c 0n 0n 2c 2c 0n 1c", "0n 0n 0n 0n 0n 0n 0n 0n 0n 1c 1c 0n"]
  return [(f"p{i}{'r' if r else ''}", h, dict(plan=p.split(), reverse=r)) for i, p in enumerate(plans) for r in (False, True)]
