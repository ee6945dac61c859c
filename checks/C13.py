"""C13 mode ordering, selection and export"""
import math
BOUNDS = "0..3 modes (quick), 0..4 (thorough) with arbitrary distinct-or-equal frequencies, decays and amplitudes; every order, direction and limit"
OUTSIDE = "more modes"
COVERS = {"beats", "sorted", "predicted", "limited", "none", "phases", "export"}
ORDERS = ["energies", "freqs", "amps", "decays"]


def model(ctx, n, phases=None, **kw):
  smp = ctx.mod("sample.sample")
  f, d, a = ctx.reals("f", n, 1, 20000), ctx.reals("d", n, .01, 100), ctx.reals("a", n, .001, 10)
  if phases is not None:
    m = ctx.mod("sample.beatsdrop.sample").SAMPLEBeatsDROP(**kw)
    m.param_matrix_ = ctx.arr([f, d, a, phases], float) if n else ctx.np.zeros((4, 0))
    return m, f, d, a
  m = smp.SAMPLE(**kw)
  m.param_matrix_ = ctx.arr([f, d, a], float) if n else ctx.np.zeros((3, 0))
  return m, f, d, a


def feature(order, f, d, a):
  return {"freqs": f, "decays": d, "amps": a, "energies": [x * y * y / 4 for x, y in zip(d, a)]}[order]


def sort(ctx, n, order, reverse, default=False):
  m, f, d, a = model(ctx, n)
  kw = {} if default else dict(order=order, reverse=reverse)
  got = [int(i) for i in m.mode_argsort_(**kw)]
  ctx.cover("sorted")
  ctx.check(sorted(got) == list(range(n)), "every mode once")
  e = feature(order, f, d, a)
  for i, j in zip(got, got[1:]):
    ctx.check(e[i] >= e[j] if reverse else e[i] <= e[j], "ordered by the feature")
  s = m.sdt_params_(**kw)
  export(ctx, m, s, got, f, d, a)


def export(ctx, m, s, order, f, d, a):
  ctx.cover("export")
  n = len(f)
  ctx.check(s["nModes"] == n, "number of modes")
  lim = n if m.max_n_modes is None else m.max_n_modes
  ctx.check(0 <= s["activeModes"] <= min(n, lim), "active modes")
  ctx.check(s["activeModes"] == min(n, lim), "as many active modes as allowed")
  ctx.check(len(s["freqs"]) == len(s["decays"]) == len(s["weights"]) == n, "as many values as modes")
  ctx.check(s["nPickups"] == len(s["gains"]) == 1 and len(s["gains"][0]) == n, "one pickup")
  for j, i in enumerate(order):
    ctx.same(s["freqs"][j], f[i], "frequency exported in order")
    ctx.same(s["decays"][j], d[i], "decay exported in order")
    ctx.same(s["gains"][0][j], a[i], "gain exported in order")
    ctx.eq(s["weights"][j], 1 / n, "uniform weights")
  for q in (s["freqs"], s["decays"], s["weights"], s["gains"], s["gains"][0]):
    ctx.check(type(q) is list, "serialisable")


def exported(ctx, n, cap):
  m, f, d, a = model(ctx, n, max_n_modes=cap)
  if n == 0:
    ctx.cover("none")
  export(ctx, m, m.sdt_params_(order="freqs", reverse=False), [int(i) for i in m.mode_argsort_(order="freqs", reverse=False)], f, d, a)


def predict(ctx, n, order, reverse, req=None, cap=None, phases=None, nt=1, default=False, beats=False):
  lp = ctx.reals('lp', n, -7, 7) if beats else None
  m, f, d, a = model(ctx, n, phases=lp, max_n_modes=cap)
  t = ctx.reals("t", nt, 0, 10)
  kw = {} if default else dict(order=order, reverse=reverse)
  ph = [0.] * n
  if beats:
    ctx.cover("beats")
    ph = lp if phases is None else ph  # the learned phases, unless told otherwise
  if phases in ("array", "list", "tuple"):
    ph = ctx.reals("p", n, -7, 7)
    kw["phases"] = {"array": lambda v: ctx.arr(v, float), "list": list, "tuple": tuple}[phases](ph)
    ctx.cover("phases")
  elif phases == "none":
    kw["phases"] = None
  if req is not None:
    kw["n_modes"] = req
  y = m.predict(ctx.arr(t, float), **kw)
  ctx.cover("predicted")
  idx = [int(i) for i in m.mode_argsort_(order=order, reverse=reverse)]
  k = n if req is None and cap is None else cap if req is None else req
  if k < n:
    ctx.cover("limited")
  ctx.check(tuple(ctx.np.shape(y)) == (() if nt == 1 else (nt,)), "one value per instant")
  y = ctx.np.reshape(y, (-1,))
  for j in range(nt):
    want = 0.
    for i in idx[:k]:
      want = want + a[i] * ctx.fn("exp")(-2 * t[j] / d[i]) * ctx.fn("cos")(2 * math.pi * f[i] * t[j] + ph[i])
    ctx.eq(y[j], want, "sum of the first modes in order", tol=1e-6)
  if phases == "array":
    ctx.eq(kw["phases"], ctx.arr(ph, float), "given phases are not modified", tol=0)
  ctx.eq(m.freqs_, ctx.arr(f, float) if n else ctx.np.zeros(0), "frequencies are not modified", tol=0)
  ctx.eq(m.decays_, ctx.arr(d, float) if n else ctx.np.zeros(0), "decays are not modified", tol=0)


def configs(tier):
  q = []
  for o in ORDERS:
    for r in (True, False):
      q.append((f"sort3{o}{r}", sort, dict(n=3, order=o, reverse=r)))
  q += [("sortdef", sort, dict(n=3, order="energies", reverse=True, default=True))]
  for n, cap in [(0, None), (0, 2), (1, None), (2, 1), (2, 2), (2, 5), (3, 0), (3, 2)]:
    q.append((f"export{n}cap{cap}", exported, dict(n=n, cap=cap)))
  q += [("pdef", predict, dict(n=2, order="energies", reverse=True, default=True)),
        ("p3r2", predict, dict(n=3, order="freqs", reverse=True, req=2)),
        ("p3c1", predict, dict(n=3, order="amps", reverse=False, cap=1)),
        ("p2r1c2", predict, dict(n=2, order="decays", reverse=False, req=1, cap=2)),
        ("p2r2c1", predict, dict(n=2, order="energies", reverse=False, req=2, cap=1)),
        ("p2r5", predict, dict(n=2, order="freqs", reverse=False, req=5)), ("p2r0", predict, dict(n=2, order="freqs", reverse=False, req=0)),
        ("p0", predict, dict(n=0, order="energies", reverse=True)), ("p1t2", predict, dict(n=1, order="energies", reverse=True, nt=2)),
        ("p3ph", predict, dict(n=3, order="freqs", reverse=True, req=2, phases="array")),
        ("p2phl", predict, dict(n=2, order="amps", reverse=True, phases="list")),
        ("p2pht", predict, dict(n=2, order="amps", reverse=True, phases="tuple")),
        ("p2phn", predict, dict(n=2, order="amps", reverse=True, phases="none")),
        ("b2", predict, dict(n=2, order="amps", reverse=True, beats=True)), ("b3r2", predict, dict(n=3, order="freqs", reverse=True, req=2, beats=True)), ("b0", predict, dict(n=0, order="freqs", reverse=True, beats=True)),
        ("b2n", predict, dict(n=2, order="amps", reverse=False, beats=True, phases="none")), ("b2a", predict, dict(n=2, order="decays", reverse=False, cap=1, beats=True, phases="array")), ("bdef", predict, dict(n=2, order="energies", reverse=True, default=True, beats=True)),
        ("p2ph2", predict, dict(n=2, order="energies", reverse=True, phases="array", nt=2))]
  if tier == "thorough":
    q += [(f"sort4{o}{r}", sort, dict(n=4, order=o, reverse=r)) for o in ORDERS for r in (True, False)]
    q += [(f"p3{o}{r}{k}", predict, dict(n=3, order=o, reverse=r, req=k, phases="array", nt=2)) for o in ORDERS for r in (True, False)
          for k in (1, 2, 3)]
  return q
