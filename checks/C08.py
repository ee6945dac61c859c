"""C08 framing of the signal"""
BOUNDS = ("number of windows: every input size and window size up to 10^6 with hops 1..12 and, thorough, symbolic hops; "
          "framing: signals of 0..9 samples, windows of 1..6, hops 1..7, every sample value; padding: windows of 1..6 samples")
OUTSIDE = "larger concrete framings (views are encoded by address arithmetic for each size)"
COVERS = {"some", "none", "padded", "model", "multidim"}


def count(ctx, hop):
  dsp = ctx.mod("sample.utils.dsp")
  n, w = ctx.int("n", 0, 10**6), ctx.int("w", 1, 10**6)
  if hop == "w":
    ctx.assume(w <= 64)
    r, step = dsp.n_windows(n, w), w
  elif hop == "s":
    step = ctx.int("hop", 1, 10**5)
    r = dsp.n_windows(n, w, step)
  else:
    r, step = dsp.n_windows(n, wsize=w, hop=hop), hop
  ctx.check(r >= 0, "never negative")
  ctx.check(ctx.Or(r == 0, (r - 1) * step + w <= n), "the last window fits")
  ctx.check(r * step + w > n, "no further window fits")


def frames(ctx, n, w, hop, multi=False):
  dsp = ctx.mod("sample.utils.dsp")
  x = ctx.reals("x", n)
  a = ctx.arr(x, float)
  if multi:
    ctx.cover("multidim")
    a = a.reshape((2, -1))
  got = dsp.overlapping_windows(a, wsize=w, **({} if hop is None else dict(hop=hop)))
  verify(ctx, got, x, w, hop or w)
  ctx.eq(ctx.np.reshape(a, (-1,)), ctx.arr(x, float), "the signal is not altered", tol=0)


def verify(ctx, got, x, w, hop):
  want = [x[k:k + w] for k in range(0, len(x) - w + 1, hop)]
  got = list(got)
  ctx.cover("some" if want else "none")
  ctx.check(len(got) == len(want), "as many frames as whole windows fit")
  for g, v in zip(got, want):
    ctx.eq(g, ctx.arr(v, float), "samples of the frame", tol=0)


def padded(ctx, n, w, hop, pad, cls):
  mod = ctx.mod("sample.sms.mm" if cls == "ModalModel" else "sample.sms.sm")
  x = ctx.reals("x", n)
  m = getattr(mod, cls)(w=ctx.np.ones(w), n=16, tracker__h=hop, tracker__fs=8, padded=pad)
  a = ctx.arr(x, float)
  y, off = m.pad_input(a)
  if not pad:
    ctx.cover("model")
    ctx.check(off == 0, "no padding")
    ctx.eq(y, ctx.arr(x, float), "the signal as it is", tol=0)
    verify(ctx, m.time_frames(a), x, w, hop)
    return
  ctx.cover("padded")
  y = list(y)
  off = int(off)
  ctx.check(off >= w // 2 and off <= (w + 1) // 2, "the first window is centred on the first sample")
  ctx.check(len(y) >= off + n + w // 2, "half a window follows the signal")
  for i, v in enumerate(y):
    if off <= i < off + n:
      ctx.same(v, x[i - off], "samples appear unaltered")
    else:
      ctx.same(v, 0., "zeros around the signal")
  verify(ctx, m.time_frames(a), y, w, hop)
  ctx.eq(a, ctx.arr(x, float), "the input is not modified", tol=0)


def configs(tier):
  q = [(f"count{h}", count, dict(hop=h)) for h in (1, 2, 3, 5, 8, 12, "w")]
  for n, w, hop in [(9, 4, 2), (9, 4, 3), (9, 1, 1), (9, 3, 5), (8, 4, 4), (8, 4, 1), (4, 4, 2), (3, 4, 1), (2, 5, 1), (0, 1, 1),
                    (0, 3, 1), (7, 2, 7), (9, 6, None), (6, 3, None), (5, 6, 4), (1, 1, 3), (9, 2, 4)]:
    q.append((f"f{n}_{w}_{hop}", frames, dict(n=n, w=w, hop=hop)))
  q.append(("multi", frames, dict(n=8, w=3, hop=2, multi=True)))
  for n, w, hop in [(5, 1, 1), (5, 2, 1), (5, 3, 2), (6, 4, 2), (6, 5, 3), (2, 6, 2), (1, 5, 2), (4, 4, 1)]:
    q.append((f"p{n}_{w}_{hop}", padded, dict(n=n, w=w, hop=hop, pad=True, cls="SinusoidalModel")))
  q += [("u6_4_3", padded, dict(n=6, w=4, hop=3, pad=False, cls="ModalModel")), ("u2_4_1", padded, dict(n=2, w=4, hop=1, pad=False, cls="ModalModel")),
        ("m6_4_3", padded, dict(n=6, w=4, hop=3, pad=True, cls="ModalModel")),
        ("u5_5_1", padded, dict(n=5, w=5, hop=1, pad=False, cls="SinusoidalModel"))]
  if tier == "thorough":
    q.append(("counts", count, dict(hop="s")))
    for n in range(0, 11):
      for w in range(1, 7):
        for hop in (1, 2, 3, 4):
          q.append((f"F{n}_{w}_{hop}", frames, dict(n=n, w=w, hop=hop)))
    for n in range(1, 8):
      for w in range(1, 8):
        q.append((f"P{n}_{w}", padded, dict(n=n, w=w, hop=1 + n % 3, pad=True, cls="SinusoidalModel")))
  return q
