"""C51 benchmark speed-ups compare the strided convolution with the best alternative"""
import argparse
import contextlib
import logging
import os
import re

BOUNDS = ("1..3 cases per variable (thorough: 4), 1..2 samples per case, every timing and duration (symbolic positive reals), every subset of the last cases missing; images of up to 3 cells (thorough: 4) with speed-ups from "
          "1/32 to 32 and 1..3 ticks per side; axes of 2..9 cases; every minimum and maximum of the ranges")
OUTSIDE = "the timer itself; drawing (matplotlib is a stand-in that records what it is asked to draw); larger experiments; in symbolic runs, pandas is a stand-in for selection of rows, grouping and mean (replays use pandas)"
ASSUMPTIONS = ["pandas groups rows by the values of the key columns", "logarithms and exponentials are exact and monotone"]
COVERS = {"spacing", "cases", "setup", "matrix", "missing", "speed-up", "faster", "slower", "equal", "ticks", "axes"}
REL = "scripts/cim22/performance.py"


class Column(list):
  def __eq__(self, o):
    return Column([x == o for x in self])

  __hash__ = None

  def __ne__(self, o):
    return Column([x != o for x in self])

  def mean(self):
    return sum(self) / len(self)

  def sum(self):
    return sum(self)

  @property
  def values(self):
    return self

  def __getattr__(self, k):
    from symx.core import Unsupported
    raise Unsupported("pandas column: " + k)


class Table:
  """rows, as far as the script needs"""

  def __init__(self, cols):
    self.cols = {k: Column(v) for k, v in cols.items()}

  def __getitem__(self, k):
    if isinstance(k, str):
      return self.cols[k]
    return Table({n: [v for v, b in zip(c, k) if bool(b)] for n, c in self.cols.items()})

  def __len__(self):
    return len(next(iter(self.cols.values())))

  def groupby(self, by, **_):
    return Groups(self, by)

  def __getattr__(self, k):
    from symx.core import Unsupported
    raise Unsupported("pandas frame: " + k)


class Groups:
  def __init__(self, t, by, col=None):
    self.t, self.by, self.col = t, by, col

  def __getitem__(self, col):
    return Groups(self.t, self.by, col)

  def __iter__(self):
    by = [self.by] if isinstance(self.by, str) else list(self.by)
    keys = list(zip(*(self.t.cols[b] for b in by)))
    for k in sorted(set(keys)):
      rows = [i for i, q in enumerate(keys) if q == k]
      sub = Table({n: [c[i] for i in rows] for n, c in self.t.cols.items()})
      yield (k[0] if isinstance(self.by, str) else k), (sub if self.col is None else sub[self.col])

  def __getattr__(self, k):
    from symx.core import Unsupported
    raise Unsupported("pandas groups: " + k)


def frame(ctx, m, cols):
  return Table(cols) if ctx.symbolic else m.pd.DataFrame(cols)


def spacing(ctx, n, offset):
  m = ctx.script(REL)
  a = ctx.real("start", .01 if offset == 0 else 0, 5)
  b = ctx.real("stop", .01 if offset == 0 else 0, 9)
  ctx.assume(a < b)
  v = m.logspace(a, b, n, offset=offset, endpoint=True)
  ctx.check(len(v) == n, "number of values")
  log = ctx.fn("log")
  la, lb = log(a + offset), log(b + offset)
  for i in range(n):
    ctx.eq(log(v[i] + offset), la + (lb - la) * i / (n - 1), "equal ratios between consecutive values", tol=1e-6)
  ctx.eq(v[0], a, "from the minimum", tol=1e-6)
  ctx.eq(v[n - 1], b, "to the maximum", tol=1e-6)
  ctx.cover("spacing")


class Bank:
  """records how it is used"""

  def __init__(self):
    self.calls = []

  def convolve(self, x, **kw):
    self.calls.append((x, dict(kw)))
    return self

  def __getitem__(self, k):
    self.calls.append(k)
    return self


def cases(ctx, n, samples):
  """every case is timed once, with its own settings, and stored in its own rows"""
  m = ctx.script(REL)
  d0, d1 = ctx.real("dmin", .125, 2), ctx.real("dmax", .125, 8)
  s0, s1 = ctx.real("smin", 0, 1), ctx.real("smax", 0, 2)
  ctx.assume(d0 < d1)
  ctx.assume(s0 < s1)
  runs = []

  class Timer:
    def __init__(self, stmt="pass", setup="pass", **_):
      self.what = (stmt, setup)

    def repeat(self, repeat=5, number=1000000):
      ctx.check(number == 1, "one execution per sample")
      t = [ctx.real("time", 0, 9) for _ in range(repeat)]
      runs.append((*self.what, t))
      return t

  ctx.patch(m.timeit, "Timer", Timer)
  args = argparse.Namespace(output=None, n_samples=samples, n_cases=n, duration_min=d0, duration_max=d1, stride_min=s0, stride_max=s1, tqdm=False,
                            cochleagram_setup=lambda duration, stride_time: (duration, stride_time))
  data = m.load_data(args)
  out = m.run_benchmarks(data, args)
  ctx.undo()
  ctx.check(out is data, "data is extended")
  total = 5 * n * n
  ctx.check(len(runs) == total, "every case once")
  rows = total * samples
  for k in ("method", "stride", "duration", "method_i", "stride_i", "duration_i", "timeit"):
    ctx.check(len(data[k]) == rows, f"rows of {k}")
    if len(data[k]) != rows:
      return
  log = ctx.fn("log")
  ratio = lambda i: 0 if n == 1 else i / (n - 1)
  want_d = [log(d0) + (log(d1) - log(d0)) * ratio(i) for i in range(n)]
  want_s = [log(s0 + 1) + (log(s1 + 1) - log(s0 + 1)) * ratio(i) for i in range(n)]
  met = set()
  for j, (stmt, (d, s), times) in enumerate(runs):
    at = slice(j * samples, (j + 1) * samples)
    ctx.check(len(times) == samples, "samples per case")
    di, si = data["duration_i"][at.start], data["stride_i"][at.start]
    name = data["method"][at.start]
    met.add((di, si, name))
    for r in range(at.start, at.stop):
      ctx.check(data["duration_i"][r] == di and data["stride_i"][r] == si and data["method"][r] == name, "rows of a case are together")
      ctx.same(data["timeit"][r], times[r - at.start], "timings of the case")
      if r == at.start:
        ctx.eq(log(data["duration"][r]), want_d[di], "duration of the case")
        ctx.eq(log(data["stride"][r] + 1), want_s[si], "stride of the case")
      ctx.same(data["duration"][r], d, "timed duration")
      ctx.same(data["stride"][r], s, "timed stride")
    f = Bank()
    exec(stmt, {"fbank": f, "x": "x", "stride": 3, "np": ctx.np})  # pylint: disable=W0122
    if name == "strided":
      ok = len(f.calls) == 1 and f.calls[0][0] == "x" and f.calls[0][1].get("stride") == 3
    else:
      ok = (len(f.calls) == 2 and f.calls[0][0] == "x" and f.calls[0][1] == {"method": name} and
            f.calls[1] in ((slice(None), slice(None, None, 3)), (Ellipsis, slice(None, None, 3))))
    ctx.check(ok, "the timed statement is the method of the case")
  ctx.check(met == {(a, b, c) for a in range(n) for b in range(n) for c in ("auto", "overlap-add", "direct", "fft", "strided")}, "every combination")
  ctx.cover("cases")


def setup(ctx):
  """what is timed: noise of the duration, stride in samples, filters at the sample rate"""
  import numpy
  m = ctx.script(REL)
  fs = ctx.choice("fs", [1000, 8000, 44100])
  dur = ctx.choice("duration", [.5, .25])
  stride = ctx.choice("stride", [0., .0001, .002, .01])
  explicit = ctx.choice("explicit", [True, False]) if fs == 44100 else True
  seen = []

  class Bank2:
    def __init__(self, *a, **k):
      seen.append(("bank", a, k))

    def precompute(self, fs=None, **k):
      seen.append(("precompute", fs, k))
      return self

  ctx.patch(m.plt.style, "use", lambda *a, **k: None)
  ctx.patch(m.logging, "basicConfig", lambda *a, **k: None)
  ctx.patch(m.logging, "captureWarnings", lambda *a, **k: None)
  logging.disable(logging.CRITICAL)
  state = numpy.random.get_state()
  try:
    args = m.ArgParser().custom_parse_args(["--fs", str(fs)] if explicit else [])
    text = args.cochleagram_setup(duration=dur, stride_time=stride)
    psycho = __import__("sample.psycho", fromlist=["x"])
    ctx.patch(psycho, "GammatoneFilterbank", Bank2)
    ns = {}
    exec(text, ns)  # pylint: disable=W0122
  finally:
    numpy.random.set_state(state)
    logging.disable(logging.NOTSET)
    ctx.undo()
  ctx.check(int(ns["x"].size) == round(fs * dur), "noise of the requested duration")
  ctx.check(bool(ns["stride"] == max(1, round(fs * stride))), "stride in samples, at least one")
  pre = [s for s in seen if s[0] == "precompute"]
  ctx.check(len(pre) == 1, "the filter bank is precomputed")
  ctx.check(pre and pre[0][1] == fs, "filters at the sample rate of the input")
  ctx.check(isinstance(ns["fbank"], Bank2), "the filter bank is timed")
  ctx.cover("setup")


METHODS = ("auto", "overlap-add", "direct", "fft", "strided")


def table(ctx, m, n, samples, missing):
  """results of an experiment of which the last cases are missing"""
  cols = {k: [] for k in ("method", "stride", "duration", "method_i", "stride_i", "duration_i", "timeit")}
  dur = [ctx.real("d", .125, 8) for _ in range(n)]
  t = {}
  todo = [(d, s, k) for d in range(n) for s in range(n) for k in range(5)]
  for d, s, k in todo[:len(todo) - missing]:
    t[d, s, METHODS[k]] = [ctx.real("t", .125, 9) for _ in range(samples)]
    for v in t[d, s, METHODS[k]]:
      for c, x in (("method", METHODS[k]), ("stride", s / 8), ("duration", dur[d]), ("method_i", k), ("stride_i", s), ("duration_i", d), ("timeit", v)):
        cols[c].append(x)
  return frame(ctx, m, cols), dur, t


def avg(v):
  return sum(v) / len(v)


def matrix(ctx, n, samples, missing, normalize):
  m = ctx.script(REL)
  df, dur, t = table(ctx, m, n, samples, missing)
  args = argparse.Namespace(n_cases=n, n_samples=samples)
  for k in METHODS:
    r = m.times_matrix(df, k, args) if normalize is None else m.times_matrix(df, k, args, normalize=normalize)
    ctx.check(tuple(r.shape) == (n, n), "one cell per case")
    for d in range(n):
      for s in range(n):
        if (d, s, k) not in t:
          ctx.check(ctx.isnan(r[d, s]), "missing cases have no timing")
          ctx.cover("missing")
        elif normalize is False:
          ctx.eq(r[d, s], avg(t[d, s, k]), "mean time of the case")
        else:
          ctx.eq(r[d, s] * dur[d], avg(t[d, s, k]), "mean time of the case per second of input")
  ctx.cover("matrix")


def speedup(ctx, n, samples, missing):
  m = ctx.script(REL)
  df, _, t = table(ctx, m, n, samples, missing)
  r = m.compute_speedup(df, argparse.Namespace(n_cases=n, n_samples=samples))
  ctx.check(tuple(r.shape) == (n, n), "one cell per case")
  for d in range(n):
    for s in range(n):
      if any((d, s, k) not in t for k in METHODS):
        ctx.check(ctx.isnan(r[d, s]), "no speed-up for missing cases")
        continue
      best = avg(t[d, s, METHODS[0]])
      for k in METHODS[1:-1]:
        o = avg(t[d, s, k])
        best = ctx.ite(o < best, o, best)
      ctx.eq(r[d, s] * avg(t[d, s, "strided"]), best, "best other method over strided")
  ctx.cover("speed-up")


class Anything:
  def __getattr__(self, k):
    return Anything()

  def __call__(self, *a, **k):
    return Anything()


def image(ctx, n, nticks, signs):
  m = ctx.script(REL)
  lv, v = [], []
  for i, g in enumerate(signs):
    lo, hi = {"+": (.001, 5), "-": (-5, -.001), "0": (0, 0)}[g]
    lv.append(0 if g == "0" else ctx.real(f"log2speedup{i}", lo, hi))
    v.append(1. if g == "0" else ctx.np.power(2., lv[-1]))
  seen = []

  class Plt(Anything):
    def imshow(self, x, **k):
      seen.append(("im", x, k))
      return "im"

    def colorbar(self, im, ticks=None, **k):
      seen.append(("bar", im, ticks))
      bar = Anything()
      bar.ax = Anything()
      bar.ax.set_yticklabels = lambda labels, **k: seen.append(("labels", labels))
      return bar

  ctx.patch(m, "plt", Plt())
  x = ctx.arr([v], float)
  m.log_speedup_imshow(x, nticks=nticks)
  ctx.undo()
  im = [s for s in seen if s[0] == "im"]
  bar = [s for s in seen if s[0] == "bar"]
  lab = [s for s in seen if s[0] == "labels"]
  ctx.check(len(im) == len(bar) == len(lab) == 1, "one image, one bar")
  top, bot = 0, 0
  for a, g in zip(lv, signs):
    if g == "+":
      top = ctx.ite(a > top, a, top)
      ctx.cover("faster")
    elif g == "-":
      bot = ctx.ite(-a > bot, -a, bot)
      ctx.cover("slower")
    else:
      ctx.cover("equal")
  got = im[0][1]
  for i, (a, g) in enumerate(zip(lv, signs)):
    ctx.eq(x[0, i], v[i], "the speed-ups are left as they are")
    c = got[0, i]
    if g == "0":
      ctx.eq(c, 0, "no speed-up is in the middle")
    else:
      ctx.eq(c * (top if g == "+" else bot), a, "logarithm of the speed-up, over the largest of its side")
  kw = im[0][2]
  if "norm" not in kw:
    ctx.check(kw.get("vmin") == -1 and kw.get("vmax") == 1, "colours of both sides")
  ticks, labels = list(bar[0][2]), [str(s) for s in lab[0][1]]
  ctx.check(len(ticks) == len(labels), "one label per tick")
  if len(ticks) != len(labels):
    return
  prev = None
  n_pos = n_neg = 0
  for t, s in zip(ticks, labels):
    if prev is not None:
      ctx.check(t > prev, "ticks in order")
    prev = t
    mm = re.fullmatch(r"\$\\nicefrac\{1\}\{(\d+)\}\$", s)
    den, num = (int(mm.group(1)), 1) if mm else (1, int(s) if s.isdigit() else 0)
    ctx.check(num >= 1 and den >= 1, "label is a speed-up")
    if num < 1 or den < 1:
      continue
    e = num.bit_length() - den.bit_length()
    ctx.check(2.0**e == num / den, "label is a power of two")
    if e == 0:
      ctx.eq(t, 0, "equal times in the middle")
    elif e > 0:
      n_pos += 1
      ctx.eq(t * top, e, "tick is where its speed-up is")
      ctx.check(t <= 1, "tick in range")
    else:
      n_neg += 1
      ctx.eq(t * bot, e, "tick is where its slow-down is")
      ctx.check(t >= -1, "tick in range")
  ctx.check("1" in labels, "equal times are labelled")
  for m_, k, what in ((top, n_pos, "+"), (bot, n_neg, "-")):
    ctx.check(k <= nticks, "number of ticks per side")
    if what in signs:
      ctx.implies(ctx.And(m_ >= 1, nticks >= 2), k >= 1, "a side that includes a factor of two has a tick")
      if k:
        ctx.cover("ticks")
  

def axes(ctx, n, xs, ys):
  """the labels of the axes are the strides and durations of the cases"""
  m = ctx.script(REL)
  d0, d1 = ctx.real("dmin", .125, 2), ctx.real("dmax", .125, 8)
  s0, s1 = ctx.real("smin", 0, 1), ctx.real("smax", 0, 2)
  ctx.assume(d0 < d1)
  ctx.assume(s0 < s1)
  args = argparse.Namespace(output=None, image_output="none.pdf", n_cases=n, n_samples=1, duration_min=d0, duration_max=d1, stride_min=s0, stride_max=s1)
  got = {}

  class Plt(Anything):
    def xticks(self, *a, **_):
      if not a:
        return ctx.arr(xs, float), []
      got["x"] = a

    def yticks(self, *a, **_):
      if not a:
        return ctx.arr(ys, float), []
      got["y"] = a

    def xlabel(self, s, *_, **__):
      got["xl"] = s

    def ylabel(self, s, *_, **__):
      got["yl"] = s

    def gcf(self):
      f = Anything()
      f.get_size_inches = lambda: ctx.np.array([6.4, 4.8])
      f.set_size_inches = lambda *a, **k: None
      return f

  class Parser:
    def __init__(self, *a, **k):
      pass

    def custom_parse_args(self, argv):
      del argv
      return args

  order = []
  ctx.patch(m, "ArgParser", Parser)
  ctx.patch(m, "load_data", lambda a: {"timeit": []})
  ctx.patch(m, "run_benchmarks", lambda d, a: d)
  ctx.patch(m, "clean_data", lambda d, a: d)
  ctx.patch(m, "compute_speedup", lambda df, a, *k, **kk: order.append("s") or "speed-up")
  ctx.patch(m, "log_speedup_imshow", lambda s, *a, **k: order.append(s))
  ctx.patch(m, "plt", Plt())
  m.main()
  ctx.undo()
  ctx.check(order == ["s", "speed-up"], "the speed-up is shown")
  ctx.check({"x", "y"} <= set(got), "both axes are labelled")
  if not {"x", "y"} <= set(got):
    return
  exp, log = ctx.fn("exp"), ctx.fn("log")
  for k, lo, hi, off in (("x", s0, s1, 1), ("y", d0, d1, 0)):
    pos, lab = list(got[k][0]), list(got[k][1])
    ctx.check(len(pos) == len(lab) and len(pos) >= 1, "one label per tick")
    for p, s in zip(pos, lab):
      a, b = log(lo + off), log(hi + off)
      want = (exp(a + (b - a) * p / (n - 1)) - off) * 1000
      ctx.shown(s, want, f"label of the {'strides' if k == 'x' else 'durations'}")
  if "xl" in got:
    ctx.check("stride" in got["xl"] and "duration" in got["yl"], "names of the axes")
  ctx.cover("axes")


def configs(tier):
  deep = tier == "thorough"
  for n in (2, 3, 4) + ((5, 7) if deep else ()):
    for off in (0, 1):
      yield f"spacing {n} {off}", spacing, dict(n=n, offset=off)
  for n, s in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)):
    yield f"cases {n} {s}", cases, dict(n=n, samples=s)
  yield "setup", setup, {}
  for n, s, miss in ((1, 1, 0), (1, 2, 0), (2, 2, 0), (2, 1, 1), (2, 1, 5), (2, 1, 7), (2, 1, 10), (2, 1, 20)) + (((3, 2, 0), (3, 1, 12)) if deep else ()):
    for norm in (None, False, True):
      yield f"matrix {n} {s} missing {miss} {norm}", matrix, dict(n=n, samples=s, missing=miss, normalize=norm)
    yield f"speedup {n} {s} missing {miss}", speedup, dict(n=n, samples=s, missing=miss)
  for signs in ("+", "-", "0", "++", "+-", "--", "+0", "-0", "++-", "+--") + (("+-0", "++--") if deep else ()):
    for nt in (1, 2, 3):
      yield f"image {signs} {nt}", image, dict(n=len(signs), nticks=nt, signs=signs)
  for n, xs, ys in ((2, [-.5, 0., .5, 1., 1.5], [-1., 0., 1., 2.]), (4, [-1., 0., 1., 2., 3., 4.], [-1., 0., 2., 4.]), (9, [-2., 0., 2., 4., 6., 8., 10.], [-2.5, 0., 2.5, 5., 7.5, 10.]),
                    (7, [-1., 0., 2., 4., 6., 8.], [-2., 0., 2., 4., 6., 8.])):
    yield f"axes {n}", axes, dict(n=n, xs=xs, ys=ys)
