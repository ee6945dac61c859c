"""C45 interrupted evaluations and benchmarks resume without losing or corrupting results"""
import io
import itertools
import logging
import multiprocessing
import os
import shutil
import tempfile
import timeit

BOUNDS = ("evaluation script: 1..3 test cases (thorough: up to 4) and, delivered in order, 12 test cases with 12 checkpoints (interrupted after the ninth; thorough: anywhere), checkpoint period none/1/2, 1..3 successive runs (with or without resuming, the number of cases may grow, output names with "
          "special characters), any order in which the worker processes deliver, any set of failing cases, interruption at any delivery, before/after/in the middle of any write of a table "
          "(2 truncation points), before/after any rename or removal, or in the report; all three kinds of test; missing WAV files.  Benchmark script: 1 case per variable (5 benchmarks; thorough: 2, 20 benchmarks), "
          "1..2 samples, 2..3 runs, interruption by Ctrl-C or an error at any benchmark or in the middle of the saving")
OUTSIDE = ("more cases or runs; power losses that reorder file-system operations; the number of cases decreasing; the test cases themselves; other samples per benchmark between runs; pandas' CSV reader and "
           "writer are the real ones, run on concrete numbers (the schedule is what is symbolic)")
ASSUMPTIONS = ["the process pool delivers every case once, in any order, to the main process", "a rename is atomic, a write is not"]
COVERS = {"completed", "interrupted", "resumed from a checkpoint", "torn", "failing", "from scratch", "wav", "bench interrupted", "bench resumed", "bench torn"}
REL = "scripts/beatsdrop/evaluation.py"
BENCH = "scripts/cim22/performance.py"


class Crash(BaseException):
  """the process ends here"""


STOP = {"Ctrl-C": KeyboardInterrupt(), "error": RuntimeError("c45")}


class Events:
  """numbers the points where the process may end"""

  def __init__(self, ctx, name, top, first=0):
    self.ctx = ctx
    self.at = ctx.ints(name, 1, first, top)[0] if top else None
    self.n = 0
    self.what = None

  def point(self, what):
    if self.at is None:
      return
    self.n += 1
    if bool(self.at == self.n):
      self.what = what
      raise Crash(what)

  def torn(self):
    """this write is cut here (number of the variant), or False"""
    if self.at is None:
      return False
    for v in (1, 2):
      self.n += 1
      if bool(self.at == self.n):
        self.what = "torn"
        return v
    return False


def cut(path, text, variant):
  with open(path, "w", encoding="utf-8") as f:
    f.write("" if variant == 1 else text[:max(1, len(text) - 3)])


def watch(ctx, m, ev, seen):
  """file operations of the script with interruption points"""
  frame = m.pd.DataFrame
  real_csv = frame.to_csv
  real_replace, real_rename, real_remove = os.replace, os.rename, os.remove

  def to_csv(self, path=None, *args, **kwargs):
    if not isinstance(path, (str, os.PathLike)):
      return real_csv(self, path, *args, **kwargs)
    ev[0].point("write")
    v = ev[0].torn()
    if v:
      buf = io.StringIO()
      real_csv(self, buf, *args, **kwargs)
      cut(path, buf.getvalue(), v)
      seen.add("torn")
      raise Crash("torn")
    r = real_csv(self, path, *args, **kwargs)
    ev[0].point("written")
    return r

  def wrapped(f, name):
    def g(*args, **kwargs):
      ev[0].point(name)
      r = f(*args, **kwargs)
      ev[0].point(name + "d")
      return r
    return g

  ctx.patch(frame, "to_csv", to_csv)
  ctx.patch(os, "replace", wrapped(real_replace, "replace"))
  ctx.patch(os, "rename", wrapped(real_rename, "rename"))
  ctx.patch(os, "remove", wrapped(real_remove, "remove"))
  ctx.patch(os, "unlink", wrapped(real_remove, "remove"))


KINDS = {
    "eval": ((), "test_case", "BeatsDROPEvalResult", "statistical_tests", "beatsdrop_eval_result_fields"),
    "decision": (("--test-decision",), "test_case_decision", "BeatsDROPDecisionResult", "decision_report", "beatsdrop_decision_result_fields"),
    "fft": (("--test-fft", "3"), "test_case_fft", "BeatsDROPFFTResult", "fft_report", "beatsdrop_fft_result_fields"),
}


def value(kind, run, seed, k):
  """what the test of this seed computed in this run"""
  if kind == "decision" and k in ("beat", "single"):
    return (run + seed + len(k)) % 2 == 0
  return float(1000 * (run + 1) + 10 * seed) + 0.25 * (len(k) + sum(map(ord, k)) % 7)


def evaluation(ctx, plan, kind, name, wav, fifo=False, first=0):
  """plan: (cases, checkpoint period, resume, may be interrupted) of each run;
  with fifo, cases do not fail and are delivered in order; interruptions from the first event"""
  logging.disable(logging.CRITICAL)
  m = ctx.script(REL)
  argk, tname, cname, rname, fname = KINDS[kind]
  cls = getattr(m, cname)
  fields = [k for k in getattr(m, fname) if k != "seed"]
  d = tempfile.mkdtemp(prefix="c45_")
  cwd = os.getcwd()
  ev, seen = [None], set()
  cur = {}

  def test(seed, *args, wav_path=None, **kwargs):
    del args, kwargs
    if wav_path is not None and bool(cur["wavs"][seed]):
      with open(wav_path.format(seed), "w", encoding="utf-8"):
        pass
    if bool(cur["fails"][seed]):
      seen.add("failing")
      return None
    return cls(seed=seed, **{k: value(kind, cur["run"], seed, k) for k in fields})

  class Pool:
    """delivers results in any order"""

    def __init__(self, *args, **kwargs):
      pass

    def __enter__(self):
      return self

    def __exit__(self, *args):
      return None

    def close(self):
      pass

    join = terminate = close

    def imap_unordered(self, func, iterable, chunksize=1):
      del chunksize
      todo = list(iterable)
      cur["seeds"] = list(todo)
      check_start()
      got = 0
      while todo:
        ev[0].point("delivery")
        s = ctx.choice("next", todo) if len(todo) > 1 and not fifo else todo[0]
        todo.remove(s)
        r = func(s)
        if r is not None:
          for st in cur["states"]:
            st[int(r.seed)] = cur["run"]
        got += 1
        yield r
        # the caller is done with this one
        if cur["period"] is not None and got % cur["period"] == 0:
          cur["kept"] = [dict(st) for st in cur["states"]]
        cur["later"].extend(dict(st) for st in cur["states"])

    def imap(self, func, iterable, chunksize=1):
      return self.imap_unordered(func, iterable, chunksize)

  def expected(st):
    """seeds to be run when starting from this state"""
    n = cur["n"]
    r = [s for s in range(n) if s not in st]
    if wav:
      r = [s for s in range(n) if s in r or not os.path.exists(f"{d}/wav/{s}.wav")]
    return r

  def check_start():
    """the cases which are run are those without a result"""
    seeds = cur["seeds"]
    n = cur["n"]
    ctx.check(len(set(seeds)) == len(seeds) and all(0 <= s < n for s in seeds), "each case at most once")
    if not cur["resume"]:
      ctx.check(sorted(seeds) == list(range(n)), "without resuming, every case is run")
      cur["states"] = [{}]
    else:
      ok = [st for st in cur["states"] if expected(st) == sorted(seeds)]
      ctx.check(bool(ok), "exactly the cases without saved result are run")
      cur["states"] = ok or cur["states"]
    cur["states"] = [dict(st) for st in cur["states"]]
    cur["later"] = [dict(st) for st in cur["states"]]

  def table(df):
    return {k: list(df[k]) for k in ("seed", *fields)}

  def wanted(st):
    ss = sorted(s for s in st if s < cur["n"])
    t = {k: [value(kind, st[s], s, k) for s in ss] for k in fields}
    t["seed"] = ss
    return t

  def report(args):
    ev[0].point("report")
    cur["df"] = table(args.df)
    return args

  watch(ctx, m, ev, seen)
  ctx.patch(m, tname, test)
  ctx.patch(m, rname, report)
  ctx.patch(multiprocessing, "Pool", Pool)
  if "Pool" in m.__dict__:
    ctx.patch(m, "Pool", Pool)
  try:
    os.makedirs(d + "/out")
    out = f"{d}/out/{name}"
    if name == "relative":
      os.chdir(d + "/out")
      out = name
    states = [{}]
    for run, (n, period, resume, crash) in enumerate(plan):
      cur.update(run=run, n=n, period=period, resume=resume, seeds=None, df=None, states=[dict(st) for st in states], kept=None, later=[],
                 fails=ctx.bools("fail%d_" % run, n) if crash is not None and not fifo else [False] * n,
                 wavs=ctx.bools("wav%d_" % run, n) if wav and crash else [True] * n)
      ev[0] = Events(ctx, "crash%d" % run, crash or 0, first)
      argv = ["-O", out, "-n", str(n), "-j", "1", "-l", "CRITICAL", *argk]
      if period is not None:
        argv += ["--checkpoint", str(period)]
      if not resume:
        argv.append("--no-resume")
      if wav:
        argv += ["--wav", d + "/wav"]
      try:
        m.main(*argv)
      except Crash:
        seen.add("interrupted")
        if ev[0].what == "torn":
          seen.add("torn")
        if cur["seeds"] is None:
          # nothing had to be run, or not even started
          if resume and cur["df"] is None:
            ok = [st for st in cur["states"] if not expected(st)]
            states = ok or states
          continue
        base = cur["kept"] if cur["kept"] is not None else states
        # either the last checkpoint, or what was known at a later point
        cand = base + cur["later"] + cur["states"]
        states = []
        for st in cand:
          # nothing the last checkpoint holds may be lost
          if any(set(b) <= set(st) for b in base) and st not in states:
            states.append(st)
        if not resume and cur["kept"] is None:
          states += [st for st in cand if st not in states]
        continue
      ctx.check(cur["df"] is not None, "the report is made")
      if cur["df"] is None:
        return
      seen.add("completed")
      if cur["seeds"] is None:
        ok = [st for st in cur["states"] if not expected(st)] if resume else []
        ctx.check(bool(ok), "nothing is run only when all results were saved")
        cur["states"] = ok or cur["states"]
      elif resume and len(cur["seeds"]) < n and run:
        seen.add("resumed from a checkpoint")
      if not resume and run:
        seen.add("from scratch")
      if wav:
        seen.add("wav")
      ok = [st for st in cur["states"] if wanted(st) == cur["df"]]
      ctx.check(bool(ok), "each case has its own result, once, in order")
      cur["states"] = ok or cur["states"]
      states = [dict(st) for st in cur["states"]]
      ctx.check(os.path.isfile(out + ".csv"), "results are saved")
      if os.path.isfile(out + ".csv"):
        got, exc = ctx.raises(lambda: table(m.pd.read_csv(out + ".csv")), Exception)  # pylint: disable=W0640
        ctx.check(exc is None, "saved results can be read")
        if exc is None:
          ctx.check(got == cur["df"], "saved results are those of the report")
      left = [f for f in os.listdir(d + "/out") if "ckpt" in f and not f.startswith(".")]
      ctx.check(not left, "no checkpoints are left")
  finally:
    os.chdir(cwd)
    logging.disable(logging.NOTSET)
    ctx.undo()
    shutil.rmtree(d)
  for c in seen:
    ctx.cover(c)


def benchmark(ctx, cases, samples, runs, crash, kinds):
  logging.disable(logging.CRITICAL)
  m = ctx.script(BENCH)
  d = tempfile.mkdtemp(prefix="c45_")
  ev, seen = [None], set()
  cur = {"run": 0, "done": 0}
  total = cases * cases * len(m.convolutions)

  class Timer:
    """each benchmark takes as many seconds as its number"""

    def __init__(self, stmt="pass", setup="pass", **kwargs):
      del kwargs
      self.stmt, self.setup = stmt, setup

    def repeat(self, repeat=5, number=1):
      ctx.check(number == 1 and repeat == samples, "every benchmark takes the requested samples")
      if cur["stop"] is not None and bool(cur["stop"] == cur["done"]):
        seen.add("bench interrupted")
        cur["interrupted"] = True
        raise STOP[cur["kind"]]
      cur["done"] += 1
      cur["stmts"].append((self.stmt, self.setup))
      return [float(100 * cur["run"] + cur["done"]) + i / 8 for i in range(samples)]

  def setup(fs=None, stride_time=None, duration=None):
    del fs
    return (stride_time, duration)

  real_parse = m.ArgParser.custom_parse_args

  def parse(self, argv):
    a = real_parse(self, argv)
    a.cochleagram_setup = setup
    return a

  watch(ctx, m, ev, seen)
  ctx.patch(m.ArgParser, "custom_parse_args", parse)
  ctx.patch(timeit, "Timer", Timer)
  ctx.patch(m, "log_speedup_imshow", lambda *a, **k: (None, None))
  ctx.patch(m.plt.style, "use", lambda *a, **k: None)
  ctx.patch(m.plt, "show", lambda *a, **k: None)
  conv = list(m.convolutions.items())
  span = lambda lo, hi, off: [lo] if cases == 1 else [(lo + off) * ((hi + off) / (lo + off))**(i / (cases - 1)) - off for i in range(cases)]
  durs, strs = span(0.5, 5.0, 0.0), span(0.0, 0.010, 1.0)
  order = list(itertools.product(range(cases), range(cases), range(len(conv))))
  try:
    path = d + "/bench.csv"
    # saved benchmarks: how many, in candidates
    saved = [0]
    for run in range(runs):
      last = run == runs - 1
      cur.update(run=run, done=0, stmts=[], interrupted=False, stop=None if last else ctx.ints("stop%d" % run, 1, 0, total)[0],
                 kind=None if last else ctx.choice("kind%d" % run, kinds))
      ev[0] = Events(ctx, "crash%d" % run, 0 if last else crash)
      argv = ["-O", path, "-n", str(samples), "-c", str(cases), "-l", "CRITICAL"]
      try:
        m.main(*argv)
        m.plt.close("all")
      except (Crash, RuntimeError) as e:
        m.plt.close("all")
        if isinstance(e, RuntimeError) and str(e) != "c45":
          raise
        if isinstance(e, Crash):
          if ev[0].what == "torn":
            seen.add("bench torn")
          saved = sorted({s for s in saved} | {s + cur["done"] for s in saved})
          saved = [s for s in saved if s <= total]
          continue
      # which of the candidates did this run continue from?
      first = [s for s in saved if starts(s, cur["stmts"], order, conv, durs, strs)]
      ctx.check(bool(first), "benchmarks continue where the saved ones end, in order")
      if not first:
        return
      if not cur["interrupted"]:
        first = [s for s in first if s + cur["done"] == total]
        ctx.check(bool(first), "every benchmark is run once")
      if run and any(first):
        seen.add("bench resumed")
      df, exc = ctx.raises(lambda: m.pd.read_csv(path), Exception)
      ctx.check(exc is None, "results are saved")
      if exc is not None:
        return
      ok = [s for s in first if rows(df, s + cur["done"], samples, order, conv, durs, strs)]
      ctx.check(bool(ok), "each saved benchmark has its samples, in order")
      new = [float(100 * run + 1 + j) + i / 8 for j in range(cur["done"]) for i in range(samples)]
      ctx.check(list(df["timeit"])[len(df) - len(new):] == new, "times are those measured")
      if cur.get("old") is not None:
        k = len(df) - len(new)
        ctx.check(list(df["timeit"])[:k] == cur["old"][:k] and k in (0, len(cur["old"])) or len(saved) > 1, "saved times stay")
      cur["old"] = list(df["timeit"])
      saved = sorted({s + cur["done"] for s in (ok or first)})
  finally:
    logging.disable(logging.NOTSET)
    ctx.undo()
    shutil.rmtree(d)
  for c in seen:
    ctx.cover(c)


def near(a, b):
  return abs(a - b) <= 1e-9 * max(1, abs(b))


def starts(s, stmts, order, conv, durs, strs):
  """do these benchmarks continue after the first s?"""
  if s + len(stmts) > len(order):
    return False
  for (stmt, (stride, dur)), (di, si, ki) in zip(stmts, order[s:]):
    if stmt != conv[ki][1] or not near(stride, strs[si]) or not near(dur, durs[di]):
      return False
  return True


def rows(df, k, samples, order, conv, durs, strs):
  if len(df) != k * samples:
    return False
  for r, (_, row) in enumerate(df.iterrows()):
    di, si, ki = order[r // samples]
    if (row["method"], row["method_i"], row["duration_i"], row["stride_i"]) != (conv[ki][0], ki, di, si):
      return False
    if not near(row["duration"], durs[di]) or not near(row["stride"], strs[si]):
      return False
  return True


def configs(tier):
  deep = tier != "quick"
  for n in (1, 2):
    for p in (None, 1, 2):
      yield f"evaluation {n} cases, checkpoint {p}", evaluation, dict(plan=[(n, p, True, 40), (n, p, True, None)], kind="eval", name="out", wav=False)
  yield "evaluation 3 cases", evaluation, dict(plan=[(3, 1, True, 60), (3, None, True, None)], kind="fft", name="out", wav=False)
  yield "evaluation 3 cases, checkpoint 2", evaluation, dict(plan=[(3, 2, True, 40), (3, 2, True, None)], kind="decision", name="out", wav=False)
  yield "evaluation more cases", evaluation, dict(plan=[(1, None, True, 0), (2, 1, True, 30), (3, None, True, None)], kind="decision", name="out", wav=False)
  yield "evaluation from scratch", evaluation, dict(plan=[(2, None, True, 0), (2, 1, False, 40), (2, None, True, None)], kind="eval", name="out", wav=False)
  yield "evaluation from scratch after interruption", evaluation, dict(plan=[(1, 1, True, 14), (1, 1, False, 18), (1, 1, True, None)], kind="fft", name="out", wav=False)
  yield "evaluation interrupted twice", evaluation, dict(plan=[(1, 1, True, 14), (1, 1, True, 14), (2, None, True, None)], kind="eval", name="out", wav=False)
  yield "evaluation 12 cases", evaluation, dict(plan=[(12, 1, True, 84), (12, 1, True, None)], kind="fft", name="out", wav=False, fifo=True, first=62)
  yield "evaluation wav", evaluation, dict(plan=[(2, None, True, 16), (2, None, True, None)], kind="eval", name="out", wav=True)
  for name in ("o[u]t", "o{}t", "relative", "o*t"):
    yield f"evaluation {name}", evaluation, dict(plan=[(1, 1, True, 14), (1, None, True, None)], kind="eval", name=name, wav=False)
  stop = list(STOP)
  for s in (1, 2):
    yield f"benchmark {s} samples", benchmark, dict(cases=1, samples=s, runs=2, crash=8, kinds=stop)
  yield "benchmark interrupted twice", benchmark, dict(cases=1, samples=1, runs=3, crash=0, kinds=stop)
  if deep:
    yield "evaluation 12 cases anywhere", evaluation, dict(plan=[(12, 1, True, 90), (12, 5, True, None)], kind="eval", name="out", wav=False, fifo=True)
    yield "evaluation 4 cases", evaluation, dict(plan=[(4, 2, True, 60), (4, None, True, None)], kind="fft", name="out", wav=False)
    yield "evaluation from scratch 2", evaluation, dict(plan=[(2, 1, True, 40), (2, 1, False, 40), (2, 1, True, None)], kind="fft", name="out", wav=False)
    yield "evaluation interrupted twice 2", evaluation, dict(plan=[(2, 1, True, 40), (2, 2, True, 40), (2, None, True, None)], kind="eval", name="out", wav=False)
    yield "benchmark 2 cases", benchmark, dict(cases=2, samples=2, runs=2, crash=8, kinds=stop)
