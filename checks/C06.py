"""C06 peak detection"""
BOUNDS = "spectra of 1..7 samples (quick) / 1..9 (thorough), every real value of every sample and of the threshold"
OUTSIDE = "longer spectra (each decision only looks at three neighbouring samples); not-a-number samples"
COVERS = {"peak", "no-peak", "threshold-cuts"}


def h(ctx, n, thr):
  dsp = ctx.mod("sample.sms.dsp")
  x = ctx.reals("x", n)
  t = ctx.real("t") if thr else None
  r = dsp.peak_detect(ctx.arr(x), t) if thr else dsp.peak_detect(ctx.arr(x))
  got = [int(i) for i in r]
  ctx.check(all(a < b for a, b in zip(got, got[1:])), "indices increase")
  ctx.check(all(0 < i < n - 1 for i in got), "interior samples only")
  for i in range(1, n - 1):
    mx = ctx.And(x[i] > x[i - 1], x[i] > x[i + 1])
    want = ctx.And(mx, x[i] > t) if thr else mx
    if i in got:
      ctx.check(want, f"reported sample {i} is a strict local maximum above threshold")
      ctx.cover("peak")
    else:
      ctx.check(ctx.Not(want), f"sample {i} not reported is not a peak")
      ctx.cover("no-peak")
      if thr and ctx.symbolic and ctx.E.feasible(ctx.And(mx, True).e if hasattr(ctx.And(mx, True), "e") else ctx.z3.BoolVal(mx)) == "sat":
        ctx.cover("threshold-cuts")


def configs(tier):
  m = 7 if tier == "quick" else 9
  return [(f"n{n}{'t' if t else ''}", h, dict(n=n, thr=t)) for n in range(m, 0, -1) for t in (True, False)]
