"""C46 evaluation reports describe the current results"""
import argparse
import contextlib
import io
import logging
import multiprocessing
import os
import shutil
import tempfile
import types

BOUNDS = ("1..3 cases with any results; any ranking decision, mean ranks and critical distance for every pair that is reported; histories of 2..3 runs of which each may resume, add cases or start from scratch, "
          "interrupted anywhere in between; importances of 16 cases with any value per feature and target, with and without progress bar; one test case with 1..3 tracks of 1..3 frames, any amplitudes incl. gaps, "
          "any energies, decisions and parameters; any error in a test")
OUTSIDE = ("the statistics themselves (autorank, scikit-learn); plots; text other than the reported comparisons; changing --alpha, --frequentist or --n-samples between runs that resume; tracks discarded by the "
           "model for non-finite parameters")
ASSUMPTIONS = ["frequencies and amplitudes are positive", "stand-ins for the model, the regressions, the ranking and the classifier with arbitrary results", "medians of tracks' frequencies differ in their distance to the true frequency"]
COVERS = {"errors", "words", "current", "recomputed", "interrupted", "labels", "importance", "count", "case", "gap", "decision", "fft", "one mode", "no modes", "failed", "raised"}
REL = "scripts/beatsdrop/evaluation.py"
VARS = [k + str(i) for k in "fad" for i in range(2)]


class Crash(BaseException):
  """the process ends here"""


class Stop(BaseException):
  """the harness has seen enough"""


@contextlib.contextmanager
def quiet():
  logging.disable(logging.CRITICAL)
  try:
    yield
  finally:
    logging.disable(logging.NOTSET)


class Table(dict):
  """columns, as far as the report needs"""

  def copy(self):
    return Table(self)

  @property
  def columns(self):
    return list(self)

  @property
  def shape(self):
    return (len(next(iter(self.values()))), len(self))

  def __getitem__(self, k):
    if isinstance(k, list):
      return Table((i, dict.__getitem__(self, i)) for i in k)
    return dict.__getitem__(self, k)


def frame(ctx, m, cols):
  """a data frame; in symbolic runs, a mapping of columns"""
  if ctx.symbolic:
    return Table((k, ctx.arr(v, float)) for k, v in cols.items())
  return m.pd.DataFrame(cols)


def errors(ctx, n, frequentist):
  m = ctx.script(REL)
  psy, dsp = ctx.mod("sample.psycho"), ctx.mod("sample.utils.dsp")
  cols, kw = {}, {}
  for k in VARS:
    for p in ("", "br_", "dbr_"):
      cols[p + k] = ctx.reals(p + k + "_", n, 1e-3, 1e4)
  seen = []
  al = ctx.real("alpha", 0, 1)
  ns = ctx.int("samples", 1, 10**6)

  def rank(data, **kws):
    seen.append(({k: list(data[k]) for k in data}, kws))
    return "ranking"

  said = []
  if ctx.symbolic:
    ctx.patch(m.pd, "DataFrame", lambda data=None, **k: data)
  df = frame(ctx, m, cols)
  ctx.patch(m.autorank, "autorank", rank)
  ctx.patch(m, "print_report", said.append)
  args = argparse.Namespace(df=df, output=None, alpha=al, n_samples=ns, frequentist=frequentist)
  with quiet():
    m.statistical_tests(args)
  ctx.check(said == ["ranking"] and len(seen) == 1, "the ranking is made once and reported")
  data, kw = seen[0]
  ctx.check(set(data) == {f"{k}_{p}_ar" for k in VARS for p in ("br", "dbr")}, "errors of both models in all parameters")
  maps = {"f": psy.hz2mel, "a": dsp.a2db, "d": lambda v: v}
  for k in VARS:
    for p in ("br", "dbr"):
      for i in range(n):
        e = maps[k[0]](cols[k][i]) - maps[k[0]](cols[f"{p}_{k}"][i])
        got = data[f"{k}_{p}_ar"][i]
        ctx.check(ctx.Or(abs(got - e) <= 1e-6, abs(got + e) <= 1e-6), "error is the difference, in mel, decibels and seconds")
        ctx.check(got >= 0, "errors are absolute")
  ctx.check(kw.get("order") == "ascending" and kw.get("approach") == ("frequentist" if frequentist else "bayesian"), "the requested statistics")
  ctx.eq(kw["alpha"], al, "the requested significance")
  if not frequentist:
    ctx.eq(kw["nsamples"], ns, "the requested samples")
  ctx.cover("errors")


WORDS = ["smaller", "equal", "larger", "inconclusive"]
FLIP = {"smaller": "larger", "larger": "smaller"}


class Matrix(dict):
  """decisions, as column -> row -> how the column is compared to the row"""


def words(ctx, frequentist, pair, missing):
  """what the report says on a pair of populations"""
  m = ctx.script(REL)
  pops = [f"{k}_{p}_ar" for k in VARS for p in ("br", "dbr")]
  a, b = pair
  rr = types.SimpleNamespace(decision_matrix=None, cd=None, rankdf={"median": {p: 0.5 for p in pops}, "CI": {p: "[0, 1]" for p in pops}})
  if frequentist:
    cd = ctx.real("cd", 1e-3, 12)
    ra, rb = ctx.real("ranka", 1, 12), ctx.real("rankb", 1, 12)
    rank = {p: 1. for p in pops}
    rank[a], rank[b] = ra, rb
    rr.cd = cd
    if ctx.symbolic:
      class Ranks(dict):
        def __getitem__(self, k):
          return ctx.arr([dict.__getitem__(self, i) for i in k], float) if isinstance(k, list) else dict.__getitem__(self, k)
      rr.rankdf["meanrank"] = Ranks(rank)
    else:
      rr.rankdf["meanrank"] = m.pd.Series(rank)
    # lower rank means smaller
    want = "equal" if bool(abs(ra - rb) < cd) else "smaller" if bool(ra < rb) else "larger"
  else:
    want = ctx.choice("decision", WORDS)
    dm = {c: {r: "equal" for r in pops} for c in pops}
    dm[a][b] = want
    dm[b][a] = FLIP.get(want, want)
    if missing:
      dm[a][b] = float("nan")
    rr.decision_matrix = Matrix(dm)
  ctx.patch(m.autorank, "latex_report", lambda *x, **k: print("\\documentclass{article}\n\\begin{document}\n\\end{document}"))
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    m.print_report(rr)
  txt = " ".join(out.getvalue().split())
  (ka, pa, _), (kb, pb, _) = a.split("_"), b.split("_")
  got = []
  if ka == kb:
    for l in txt.split(r"\item{")[1:]:
      w = l.replace("}", " ").split()
      if w[0] == ka and "is" in w:
        # <parameter> median error of <model> is <decision> wrt <model>
        i = w.index("is")
        got.append((w[i - 1], w[i + 1], w[i + 3]))
    ctx.check(len(got) == 1, "each comparison of the models is said once")
    x, said, y = got[0]
    ctx.check((x, y) in ((pa, pb), (pb, pa)), "comparison of the two models")
    ctx.check(said == (want if (x, y) == (pa, pb) else FLIP.get(want, want)), "says how the first model's error compares to the second's")
  else:
    for l in txt.split(r"\item{")[1:]:
      w = l.replace("}", " ").split()
      if w[0] == pa and ka in w and kb in w:
        got.append((w[w.index("is") - 1], w[w.index("is") + 1], w[w.index("is") + 3]))
    ctx.check(len(got) == 1, "each comparison of the partials is said once")
    x, said, y = got[0]
    ctx.check(said == (want if (x, y) == (ka, kb) else FLIP.get(want, want)), "says how the first partial's error compares to the second's")
  ctx.cover("words")


def current(ctx, plan, decision):
  """after each run, the report is on the results of that run"""
  m = ctx.script(REL)
  d = tempfile.mkdtemp(prefix="c46_")
  cur = {}
  cls = m.BeatsDROPDecisionResult if decision else m.BeatsDROPEvalResult
  tname = "test_case_decision" if decision else "test_case"
  fields = [k for k in (m.beatsdrop_decision_result_fields if decision else m.beatsdrop_eval_result_fields) if k != "seed"]

  def point(what):
    if cur["at"] is None:
      return
    cur["n"] += 1
    if bool(cur["at"] == cur["n"]):
      raise Crash(what)

  class Pool:
    """serial"""

    def __init__(self, *a, **k):
      pass

    def __enter__(self):
      return self

    def __exit__(self, *a):
      return None

    def imap_unordered(self, func, it, chunksize=1):
      del chunksize
      for s in list(it):
        point("delivery")
        yield func(s)

  def test(seed, *a, **k):
    del a, k
    return cls(seed=seed, **{f: float(1 + 100 * cur["run"] + 10 * seed + len(f) + i) for i, f in enumerate(fields)})

  def rank(data, **kws):
    del kws
    point("rank")
    return {"data": {k: list(data[k]) for k in data}}

  def around(f, name):
    def g(*a, **k):
      point(name)
      r = f(*a, **k)
      point(name + " done")
      return r
    return g

  real_csv, real_dump = m.pd.DataFrame.to_csv, m.pickle.save_pickled

  def to_csv(self, path=None, *a, **k):
    if not isinstance(path, str):
      return real_csv(self, path, *a, **k)
    point("write")
    r = real_csv(self, path, *a, **k)
    point("written")
    return r

  def dump(obj, path, *a, **k):
    point("dump")
    cur["n"] += 1
    if cur["at"] is not None and bool(cur["at"] == cur["n"]):
      with open(path, "wb"):
        pass
      raise Crash("torn dump")
    real_dump(obj, path, *a, **k)
    point("dumped")

  def say(rr):
    point("say")
    cur["said"].append(rr["data"])

  def labels(y_true, y_pred, *a, **k):
    del a, k
    point("say")
    cur["labels"] = (list(y_true), list(y_pred))
    raise Stop()

  ctx.patch(m, tname, test)
  ctx.patch(multiprocessing, "Pool", Pool)
  ctx.patch(m.autorank, "autorank", rank)
  ctx.patch(m, "print_report", say)
  ctx.patch(m.pickle, "save_pickled", dump)
  ctx.patch(m.pd.DataFrame, "to_csv", to_csv)
  ctx.patch(os, "remove", around(os.remove, "remove"))
  ctx.patch(os, "replace", around(os.replace, "replace"))
  try:
    os.makedirs(d + "/out")
    for run, (n, resume, crash) in enumerate(plan):
      cur.update(run=run, n=0, said=[], at=ctx.int("crash%d" % run, 0, crash) if crash else None)
      argv = ["-O", d + "/out/r", "-n", str(n), "-j", "1", "-l", "CRITICAL"] + ([] if resume else ["--no-resume"])
      try:
        with quiet():
          m.main(*argv)
      except Crash:
        ctx.cover("interrupted")
        continue
      df = m.pd.read_csv(d + "/out/r.csv")
      ctx.check(list(df["seed"]) == list(range(n)), "results of all cases")
      ctx.check(len(cur["said"]) == 1, "the ranking is reported once")
      said = cur["said"][0]
      for i in range(2):
        for p in ("br", "dbr"):
          want = [abs(u - v) for u, v in zip(df[f"d{i}"], df[f"{p}_d{i}"])]
          got = said.get(f"d{i}_{p}_ar")
          ctx.check(got is not None and len(got) == n and all(abs(u - v) < 1e-6 for u, v in zip(got, want)), "the reported ranking is of the current results")
      ctx.check(os.path.isfile(d + "/out/r_report.tex"), "the report is written")
      ctx.cover("recomputed" if run else "current")
  finally:
    ctx.undo()
    shutil.rmtree(d)


def labels(ctx, n, table=True):
  """predictions against the truth: beats are positive, single partials negative"""
  m = ctx.script(REL)
  beat, single = ctx.bools("beat", n), ctx.bools("single", n)
  if not table:  # a data frame, with every value
    beat, single = [bool(v) for v in beat], [bool(v) for v in single]
  seen = []

  def report(y_true, y_pred, *a, **k):
    seen.append((list(y_true), list(y_pred)))
    raise Stop()

  ctx.patch(m.sklearn.metrics, "classification_report", report)
  df = Table(beat=beat, single=single) if ctx.symbolic and table else m.pd.DataFrame(dict(beat=beat, single=single))
  try:
    m.decision_report(argparse.Namespace(df=df, output=None, tqdm=False))
  except Stop:
    pass
  ctx.check(len(seen) == 1, "classification is reported")
  yt, yp = seen[0]
  ctx.check(len(yt) == len(yp) == 2 * n, "two decisions per case")
  pos = [p for t, p in zip(yt, yp) if bool(t)]
  neg = [p for t, p in zip(yt, yp) if not bool(t)]
  ctx.check(len(pos) == len(neg) == n, "one of each per case")
  for i in range(n):
    ctx.check(pos[i] == beat[i], "decision on the beat counts as positive case")
    ctx.check(neg[i] == single[i], "decision on the single partial counts as negative case")
  ctx.cover("labels")


def importance(ctx, bar):
  m = ctx.script(REL)
  n = 16
  base = {k + str(i): [float(1 + (7 * j + 3 * i + ord(k)) % 23) for j in range(n)] for k in "afdp" for i in range(3)}
  cols = dict(seed=list(range(n)), beat=[j % 3 == 0 for j in range(n)], single=[j % 2 == 0 for j in range(n)], **base)
  fits = []
  imp = {}
  real = m.pd.DataFrame

  class Classifier:
    """importances are arbitrary, one per feature and target"""

    def __init__(self, *a, **k):
      pass

    def fit(self, x, y):
      t = "beat" if list(y) == [cols["beat"][j] for j in x["seed"]] else "single"
      fits.append(t)
      self.feature_names_in_ = list(x.columns)
      for f in self.feature_names_in_:
        if (f, t) not in imp:
          imp[f, t] = ctx.real(f"imp_{f}_{t}", 0, 1)
      self.feature_importances_ = [imp[f, t] for f in self.feature_names_in_]
      return self

  got = []

  def capture(data=None, *a, **k):
    if isinstance(data, dict) and "target" in data:
      got.append(data)
      raise Stop()
    return real(data, *a, **k)

  class Bar:
    def __init__(self, it, **k):
      del k
      self.it = it

    def __iter__(self):
      return iter(self.it)

    def set_description(self, *a, **k):
      pass

  df = real(cols)
  ctx.patch(m.sklearn.metrics, "classification_report", lambda *a, **k: "")
  ctx.patch(m.sklearn.tree, "DecisionTreeClassifier", Classifier)
  ctx.patch(m.pd, "DataFrame", capture)
  ctx.patch(m.tqdm, "tqdm", Bar)
  if ctx.symbolic:
    kfold = m.sklearn.model_selection.RepeatedKFold
    ctx.patch(m.sklearn.model_selection, "RepeatedKFold", lambda **k: kfold(**{i: int(v) for i, v in k.items()}))
  try:
    with quiet(), contextlib.redirect_stdout(io.StringIO()):
      m.decision_report(argparse.Namespace(df=df, output=None, tqdm=bar))
  except Stop:
    pass
  ctx.undo()
  ctx.check(len(got) == 1, "importances are collected")
  data = got[0]
  ts = list(data["target"])
  ctx.check(set(ts) == {"beat", "single"} and sorted(fits) == sorted(ts), "importances of both targets, one per classifier")
  if set(ts) != {"beat", "single"}:
    return
  ctx.check(len(imp) == 2 * (len(data) - 1), "importance of every feature")
  for f in data:
    if f == "target":
      continue
    col = list(data[f])
    ctx.check(len(col) == len(ts), "one row per classifier")
    bad = {}
    for t, v in zip(ts, col):
      # compare each distinct value once
      bad.setdefault((t, id(v)) if ctx.symbolic else (t, v), v)
    for (t, _), v in bad.items():
      ctx.eq(v, imp[f, t], "importance is the classifier's", tol=1e-9)
  ctx.cover("importance")


def count(ctx, n, nfft):
  """share of cases with at least two tracks"""
  m = ctx.script(REL)
  c = ctx.ints("count", n, 0, 9)
  said = []

  class Template:
    def format(self, *a, **k):
      said.append(a)
      return ""

  ctx.patch(m, "fft_report_template", Template())
  with contextlib.redirect_stdout(io.StringIO()), quiet():
    m.fft_report(argparse.Namespace(df={"count": ctx.arr(c, int)}, output=None, test_fft=nfft))
  ctx.check(len(said) == 1 and len(said[0]) == 6, "one report")
  k, t, perc, size, sec, fs = said[0]
  want = sum(ctx.ite(v >= 2, 1, 0) for v in c)
  ctx.eq(k, want, "cases with at least two tracks")
  ctx.eq(t, n, "all cases")
  ctx.eq(perc * n, want * 100, "percentage")
  ctx.check(size == 2**nfft, "FFT size")
  ctx.eq(sec * fs, size, "duration", tol=1e-6)
  ctx.cover("count")


def truth(ctx, m, onlybeat):
  """a stand-in generator of test sounds"""
  f = ctx.reals("f", 3, 50, 5000)
  d = ctx.reals("d", 3, 0.05, 2)
  a = ctx.reals("a", 3, 0.01, 1)
  p = ctx.reals("p", 3, 0, 6)
  x = ctx.arr(ctx.reals("x", 2, -1, 1), float)
  made = []

  class Generator:
    """any sound"""

    def __init__(self, seed=None, onlybeat=None, **k):
      del k
      made.append((seed, onlybeat))

    def audio(self):
      return x, 44100, (tuple(f), tuple(d), tuple(a), tuple(p))

  ctx.patch(m.random, "BeatsGenerator", Generator)
  # the louder partial last
  e0, e1 = a[0]**2 * d[0], a[1]**2 * d[1]
  ctx.assume(ctx.Or(e0 < e1 - 1e-6, e0 > e1 + 1e-6))
  o = (0, 1) if bool(e0 < e1) else (1, 0)
  gt = {}
  for k, v in zip("afdp", (a, f, d, p)):
    for i in range(2):
      gt[f"{k}{i}"] = v[o[i]]
    if not onlybeat:
      gt[f"{k}2"] = v[2]
  return x, gt, made, (f, d, a, p)


class Model:
  """stand-in for the analysis"""

  def __init__(self, ctx, fits, tracks, **attrs):
    self.ctx, self.fits = ctx, fits
    self.params = {}
    self.result = attrs
    self.result["sinusoidal"] = types.SimpleNamespace(tracks_=tracks, frame_rate=attrs.pop("rate", 1), fs=44100)

  def get_params(self, *a, **k):
    return {}

  def set_params(self, **k):
    self.params.update(k)
    return self

  def fit(self, x, **k):
    self.fits.append((x, {**self.params, **k}))
    for n, v in self.result.items():
      setattr(self, n, v)
    return self


def samefields(ctx, r, gt):
  for k, v in gt.items():
    ctx.eq(getattr(r, k), v, "ground truth of the case")


def case(ctx, lens, gaps):
  """parameters estimated on the loudest track"""
  m = ctx.script(REL)
  x, gt, made, _ = truth(ctx, m, True)
  tracks = []
  for i, n in enumerate(lens):
    mag = ctx.reals(f"m{i}_", n, -90, 0)
    fr = ctx.reals(f"g{i}_", n, 50, 5000)
    for j in gaps:
      if j < n - 1 and j > 0:
        mag[j] = fr[j] = float("nan")
    tracks.append({"start_frame": 0, "mag": ctx.arr(mag, float), "freq": ctx.arr(fr, float)})
  en = ctx.reals("en", len(lens), 0, 1)
  for i in range(len(en)):
    for j in range(i):
      ctx.assume(ctx.Or(en[i] > en[j] + 1e-6, en[j] > en[i] + 1e-6))
  rate = ctx.real("rate", 10, 1000)
  fits = []
  model = Model(ctx, fits, tracks, energies_=ctx.arr(en, float), rate=rate)
  ctx.patch(m.sklearn.base, "clone", lambda *a, **k: model)
  regs = {}

  def reg(name):
    pars = [*ctx.reals(name + "a", 2, 0.01, 1), *ctx.reals(name + "f", 2, 50, 5000), *ctx.reals(name + "d", 2, 0.05, 2), *ctx.reals(name + "p", 2, 0, 6)]

    class Reg:
      def __init__(self, *a, **k):
        pass

      def fit(self, t=None, a=None, f=None, **k):
        regs[name] = (list(t), list(a), list(f))
        self.params_ = tuple(pars)
        return self

    return Reg, pars

  br, bp = reg("br")
  dbr, dp = reg("dbr")
  ctx.patch(m.beatsdrop.regression, "BeatRegression", br)
  ctx.patch(m.beatsdrop.regression, "DualBeatRegression", dbr)
  with quiet():
    r = m.test_case(seed=5)
  ctx.check(r is not None and r.seed == 5 and made == [(5, True)], "the case of this seed, without a third partial")
  samefields(ctx, r, gt)
  ctx.check(len(fits) == 1 and fits[0][0] is x and fits[0][1].get("sinusoidal__tracker__fs") == 44100, "its audio is analysed")
  best = 0
  for i in range(1, len(en)):
    if bool(en[i] > en[best]):
      best = i
  # reversed analysis: the track starts at its end
  tr = tracks[best]
  n = lens[best]
  mags, frs = list(tr["mag"]), list(tr["freq"])
  idx = [j for j in range(n) if not (j in gaps and 0 < j < n - 1)]
  want = [(n - 1 - j, j) for j in reversed(idx)]
  if len(idx) < n:
    ctx.cover("gap")
  for name in ("br", "dbr"):
    t, a, f = regs[name]
    ctx.check(len(t) == len(a) == len(f) == len(want), "every measured frame of the loudest track")
    if not len(t) == len(a) == len(f) == len(want):
      return
    for (k, j), ti, ai, fi in zip(want, t, a, f):
      ctx.eq(ti * rate, k, "time of the frame")
      ctx.le(abs(ai - mags[j] - 6.0206), 0.05, "level of the partial")
      ctx.eq(fi, frs[j], "frequency of the frame")
  for name, ps in (("br", bp), ("dbr", dp)):
    e = [ps[i]**2 * ps[4 + i] for i in range(2)]
    ctx.assume(ctx.Or(e[0] < e[1] - 1e-6, e[0] > e[1] + 1e-6))
    o = (0, 1) if bool(e[0] < e[1]) else (1, 0)
    for k, q in enumerate("afdp"):
      for i in range(2):
        ctx.eq(getattr(r, f"{name}_{q}{i}"), ps[2 * k + o[i]], "estimated parameters, with the louder partial last as in the ground truth")
  ctx.cover("case")


def decided(ctx, n, gap):
  """the decision on a partial is that on the track with the nearest frequency"""
  m = ctx.script(REL)
  _, gt, made, (f, _, _, _) = truth(ctx, m, False)
  med = ctx.reals("med", n, 50, 5000)
  tracks = []
  for i in range(n):
    fr = [med[i]] * 3
    if i in gap:
      fr[1] = float("nan")
      ctx.cover("gap")
    tracks.append({"start_frame": 0, "mag": ctx.arr([-1.] * 3, float), "freq": ctx.arr(fr, float)})
  dec = ctx.bools("dec", n)
  fits = []
  model = Model(ctx, fits, tracks, beat_decisor=types.SimpleNamespace(intermediate={"decision": list(dec)}))
  ctx.patch(m.sklearn.base, "clone", lambda *a, **k: model)
  ctx.patch(m.beatsdrop.sample, "SAMPLEBeatsDROP", lambda **k: model)
  targets = {"beat": (f[0] + f[1]) / 2, "single": f[2]}
  for t in targets.values():
    for i in range(n):
      for j in range(i):
        u, v = abs(med[i] - t), abs(med[j] - t)
        ctx.assume(ctx.Or(u > v + 1e-3, v > u + 1e-3))
  with quiet():
    r = m.test_case_decision(seed=4)
  ctx.check(r is not None and r.seed == 4 and made == [(4, False)], "the case of this seed, with a third partial")
  samefields(ctx, r, gt)
  for k, t in targets.items():
    best = 0
    for i in range(1, n):
      if bool(abs(med[i] - t) < abs(med[best] - t)):
        best = i
    ctx.check(getattr(r, k) == dec[best], "decision on the nearest track")
  ctx.cover("decision")


def bigfft(ctx, n):
  m = ctx.script(REL)
  x, gt, made, _ = truth(ctx, m, True)
  a, f, d = ctx.reals("ha", n, 0.01, 1), ctx.reals("hf", n, 50, 5000), ctx.reals("hd", n, 0.05, 2)
  fits = []
  model = Model(ctx, fits, [{}] * n, amps_=ctx.arr(a, float), freqs_=ctx.arr(f, float), decays_=ctx.arr(d, float))
  ctx.patch(m.sklearn.base, "clone", lambda *a, **k: model)
  with quiet():
    r = m.test_case_fft(seed=3, n=32)
  ctx.check(r is not None and r.seed == 3 and made == [(3, True)] and r.count == n, "the case of this seed and its tracks")
  samefields(ctx, r, gt)
  ctx.check(len(fits) == 1 and fits[0][0] is x and fits[0][1].get("sinusoidal__n") == 32 and fits[0][1].get("sinusoidal__tracker__fs") == 44100, "analysed with the requested FFT size")
  got = {k: getattr(r, k + "_hat") for k in ("a0", "a1", "f0", "f1", "d0", "d1")}
  if n == 0:
    for v in got.values():
      ctx.eq(v, 0, "nothing found")
    ctx.cover("no modes")
    return
  if n == 1:
    ctx.eq(got["a0"], a[0] / 2, "amplitude is shared")
    ctx.eq(got["a1"], a[0] / 2, "amplitude is shared")
    for k, v in (("f", f), ("d", d)):
      ctx.eq(got[k + "0"], v[0], "same mode twice")
      ctx.eq(got[k + "1"], v[0], "same mode twice")
    ctx.cover("one mode")
    return
  e = [a[i]**2 * d[i] for i in range(2)]
  ctx.assume(ctx.Or(e[0] < e[1] - 1e-6, e[0] > e[1] + 1e-6))
  o = (0, 1) if bool(e[0] < e[1]) else (1, 0)
  for k, v in (("a", a), ("f", f), ("d", d)):
    for i in range(2):
      ctx.eq(got[f"{k}{i}"], v[o[i]], "detected modes, the louder one last as in the ground truth")
  ctx.cover("fft")


def failing(ctx, which, log, wav):
  """errors in a test are raised, or else logged without a result"""
  m = ctx.script(REL)
  truth(ctx, m, which != "decision")
  err = ctx.choice("error", ["ValueError", "IndexError", "RuntimeError", "AttributeError", "LinAlgError"])
  exc = {"ValueError": ValueError, "IndexError": IndexError, "RuntimeError": RuntimeError, "AttributeError": AttributeError, "LinAlgError": ArithmeticError}[err]
  d = tempfile.mkdtemp(prefix="c46_")
  wavs = []

  class Broken(Model):
    def fit(self, x, **k):
      raise exc("c46")

  model = Broken(ctx, [], [])
  ctx.patch(m.sklearn.base, "clone", lambda *a, **k: model)
  ctx.patch(m.beatsdrop.sample, "SAMPLEBeatsDROP", lambda **k: model)
  ctx.patch(m.wavfile, "write", lambda filename, rate, data: wavs.append((filename, rate)))
  ctx.patch(m.json, "dump", lambda obj, f, **k: f.write("truth"))
  f = {"eval": m.test_case, "decision": m.test_case_decision, "fft": lambda **k: m.test_case_fft(n=16, **k)}[which]
  try:
    with quiet():
      r, e = ctx.raises(lambda: f(seed=7, log_path=d + "/logs/{:.0f}.log" if log else None, wav_path="{:.0f}.wav" if wav else None), exc)
    ctx.check(r is None, "a failed test has no result")
    if log:
      ctx.check(e is None, "with a log folder, errors do not stop the evaluation")
      ctx.check(os.path.isfile(d + "/logs/7.log"), "the error is logged")
      if os.path.isfile(d + "/logs/7.log"):
        with open(d + "/logs/7.log", encoding="utf-8") as g:
          txt = g.read()
        ctx.check("Seed: 7" in txt and "c46" in txt, "the log tells the seed and the error")
      ctx.cover("failed")
    else:
      ctx.check(isinstance(e, exc) and str(e) == "c46", "without a log folder, the error is raised")
      ctx.cover("raised")
    ctx.check(wavs == ([("7.wav", 44100)] if wav else []), "the audio is written if requested")
  finally:
    shutil.rmtree(d)


def configs(tier):
  deep = tier != "quick"
  for n in (1, 2) + ((3,) if deep else ()):
    for fr in (False, True):
      yield f"errors {n} {fr}", errors, dict(n=n, frequentist=fr)
  pairs = [(f"{k}_br_ar", f"{k}_dbr_ar") for k in VARS] + [(f"{k}0_{p}_ar", f"{k}1_{p}_ar") for k in "fad" for p in ("br", "dbr")]
  for a, b in pairs:
    yield f"words frequentist {a} {b}", words, dict(frequentist=True, pair=[a, b], missing=False)
    for miss in (False, True):
      yield f"words {a} {b} {miss}", words, dict(frequentist=False, pair=[a, b], missing=miss)
  yield "current more cases", current, dict(plan=[(1, True, 0), (2, True, 0), (2, True, 0)], decision=False)
  yield "current from scratch", current, dict(plan=[(2, True, 0), (2, False, 0), (2, True, 0)], decision=False)
  yield "current interrupted", current, dict(plan=[(1, True, 24), (2, True, 0), (2, True, 0)], decision=False)
  yield "current interrupted later", current, dict(plan=[(1, True, 0), (2, True, 24), (2, True, 0)], decision=False)
  yield "current interrupted from scratch", current, dict(plan=[(1, True, 0), (1, False, 24), (1, True, 0)], decision=False)
  for n in (1, 2, 3):
    yield f"labels {n}", labels, dict(n=n)
    if n > 1:
      yield f"labels frame {n}", labels, dict(n=n, table=False)
    yield f"count {n}", count, dict(n=n, nfft=10 + n)
  for bar in (False, True):
    yield f"importance {bar}", importance, dict(bar=bar)
  for ls, g in (([2], []), ([3, 2], [1]), ([1, 2, 2], []), ([3], [1]), ([4], [1]), ([4, 2], [2])) + ((([4, 3, 4], [1, 2]),) if deep else ()):
    yield f"case {ls} {g}", case, dict(lens=ls, gaps=g)
  for n, g in ((1, []), (2, []), (2, [1]), (2, [0]), (3, [1])) + (((4, [0, 2]),) if deep else ()):
    yield f"decided {n} {g}", decided, dict(n=n, gap=g)
  for n in range(4):
    yield f"fft {n}", bigfft, dict(n=n)
  for w in ("eval", "decision", "fft"):
    for log in (False, True):
      yield f"failing {w} {log}", failing, dict(which=w, log=log, wav=log)
