"""C19 parallel fitting"""
import copy
from checks.lib import fake_modal
BOUNDS = "0..3 tracks; every job becomes ready after any number of polls up to 2 (3 thorough), in any order and independently, and runs when it becomes ready; any one job, or none, fails; every track content; every initial state of the progress display"
OUTSIDE = "operating-system processes, pickling and the real manager (stand-ins: jobs run on copies of the model, storage is shared)"
COVERS = {"serial", "frames", "own manager", "out of order", "failure", "success", "own pool"}


class Boom(Exception):
  pass


def fitargs(ctx):
  tr = ctx.mod("sample._training")
  log = []

  class Log(tr.FitArgs):

    def progress_start(self, maximum, value=0):
      log.append(("start", maximum))

    def progress_update(self, value=None):
      log.append(("update", value))

    def progress_stop(self):
      log.append(("stop", None))

  return Log(), log


def stand_ins(ctx, polls):
  learn = ctx.mod("sample.utils.learn")
  order = []
  count = [0]

  class Handle:

    def __init__(self, i, func, args, kwds):
      self.i, self.func, self.args, self.kwds = i, func, args, kwds
      self.done, self.left, self.exc, self.val = False, polls, None, None

    def run(self):
      if not self.done:
        self.done = True
        order.append(self.i)
        # a worker has its own copy of everything but the managed storage
        f, a, k = copy.deepcopy((self.func, tuple(self.args), dict(self.kwds)))
        try:
          self.val = f(*a, **k)
        except Boom as e:
          self.exc = e

    def ready(self):
      count[0] += 1
      if count[0] > 500:
        raise RuntimeError("still polling")
      if not self.done:
        if self.left == 0 or bool(ctx.bool(f"ready{self.i}_{polls - self.left}")):
          self.run()
        else:
          self.left -= 1
      return self.done

    def wait(self, timeout=None):
      count[0] += 1
      if count[0] > 500:
        raise RuntimeError("still waiting")
      if timeout is None:
        self.run()

    def get(self, timeout=None):
      self.run()
      if self.exc is not None:
        raise self.exc
      return self.val

    def successful(self):
      return self.done and self.exc is None

  class Pool:

    def __init__(self, processes=None, *a, **k):
      self.n = 0
      Pool.processes = processes

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
      self.n += 1
      return Handle(self.n - 1, func, args, kwds or {})

    def starmap(self, func, iterable, chunksize=None):
      hs = [self.apply_async(func, args=a) for a in iterable]
      return [h.get() for h in hs]

    def map(self, func, iterable, chunksize=None):
      return self.starmap(func, [(a,) for a in iterable])

    def imap(self, func, iterable, chunksize=None):
      return iter(self.map(func, iterable))

    def __enter__(self):
      return self

    def __exit__(self, *a):
      return None

    def close(self):
      return None

    def join(self):
      return None

    def terminate(self):
      return None

  class Manager:

    class OptionalStorage(learn.OptionalStorage):

      def __deepcopy__(self, memo):
        return self

      def __sklearn_clone__(self):
        return self

  return Pool, Manager, order


def model(ctx, n, fail=None, save=True, beats=True):
  base = ctx.mod("sklearn.base")
  mm = ctx.mod("sample.sms.mm")
  tracks = []
  for i in range(n):
    tracks.append({"start_frame": i, "freq": ctx.arr([ctx.real(f"fr{i}_{j}", 1, 1000) for j in range(2)], float),
                   "mag": ctx.arr([ctx.real(f"mg{i}_{j}", -80, -10) for j in range(2)], float),
                   "phase": ctx.np.zeros(2)})
  calls = [0]

  class Reg(base.BaseEstimator):

    def fit(self, x, y):
      y = ctx.np.reshape(y, (-1,))
      self.k_, self.q_ = y[0], y[1]
      return self

  class Beat(base.BaseEstimator):

    def __init__(self, fs=100):
      self.fs = fs

    def fit(self, t, a, f, **kw):
      self.params_ = (.5, .25, f[0], f[1], 1., 2., a[0], a[1])
      return self

  fm = type(fake_modal(ctx, tracks))

  class Modal(fm):

    def fit(self, x, y=None, **kw):
      self.intermediate.append("seen", "whole")
      return self

  kw = dict(sinusoidal=Modal(fs=16., intermediate__save=save), regressor=Reg())
  if not beats:
    sm = ctx.mod("sample.sample")

    class Plain(sm.SAMPLE):
      pass

    return Plain(**kw), tracks
  dec = ctx.mod("sample.beatsdrop.decision")

  class Decisor(dec.BeatDecisor):

    def decide_beat(self, i, t, track, beatsdrop, params):
      if fail == i:
        raise Boom(i)
      return bool(track["freq"][0] < 500)

  bds = ctx.mod("sample.beatsdrop.sample")
  del mm, calls
  return bds.SAMPLEBeatsDROP(beatsdrop=Beat(), beat_decisor=Decisor(intermediate__save=save), **kw), tracks


def replace_managers(ctx, tr, manager):
  import multiprocessing.managers
  for k, v in list(vars(tr).items()):
    if isinstance(v, type) and issubclass(v, multiprocessing.managers.BaseManager):
      ctx.patch(tr, k, manager)


def serial(ctx, size, n, hop, how):
  """progress of the analysis and of the tracks without any process"""
  tr = ctx.mod("sample._training")
  sm, smp = ctx.mod("sample.sms.sm"), ctx.mod("sample.sample")
  made = []

  def no(*a, **k):
    made.append(a)
    raise RuntimeError("no process is needed")

  import multiprocessing
  ctx.patch(multiprocessing, "Pool", no)
  replace_managers(ctx, tr, no)
  args, log = fitargs(ctx)
  ctx.cover("serial")
  kw = {"none": {}, "zero": dict(n_jobs=0), "pool": dict(pool=None, n_jobs=0)}[how]
  if n is None:
    m = smp.SAMPLE(sinusoidal=sm.SinusoidalModel(w=ctx.np.ones(4), n=4, tracker__fs=8, tracker__h=hop))
    x = ctx.np.zeros(size)
    k, n = len(m.sinusoidal.time_frames(x)), 0
    ctx.cover("frames")
  else:
    m, _ = model(ctx, n)
    x, k = ctx.np.zeros(size), 0
  r, e = ctx.raises(lambda: m.fit(x, _fit_args=args, **kw), RuntimeError)
  ctx.check(e is None and not made, "no processes unless asked for")
  ctx.check(r is m, "fit returns the model")
  runs = []
  for what, v in log:
    if what == "start":
      runs.append([v, 0, False])
    elif what == "update":
      ctx.check(runs and not runs[-1][2], "progress is made between start and end")
      runs[-1][1] += 1
    else:
      ctx.check(runs and not runs[-1][2], "what ends was started")
      runs[-1][2] = True
  ctx.check(all(r[2] for r in runs), "every progress ends")
  ctx.check([r[0] for r in runs] == [k, n], "the frames, then the tracks")
  if k:
    ctx.check([r[1] for r in runs] == [k, n], "one step for every frame and track")
  else:
    ctx.check(runs[-1][1] == n, "one step for every track")


def parallel(ctx, n, polls, failing=False, save=True, beats=True, own_pool=False, stale=False, own_manager=False):
  fail = ctx.choice("fail", list(range(n))) if failing else None
  m, tracks = model(ctx, n, fail, save, beats)
  ctx._names.clear()
  ser, _ = model(ctx, n, None, save, beats)
  Pool, Manager, order = stand_ins(ctx, polls)
  args, log = fitargs(ctx)
  sto = [m.sinusoidal.intermediate] + ([m.beat_decisor.intermediate] if beats else [])
  if stale:
    for s in sto:
      s.append("old", 1)
  x = ctx.np.zeros(8)
  kw = dict(pool=Pool(), mp_manager=Manager())
  if own_pool:
    import multiprocessing
    tr = ctx.mod("sample._training")
    ctx.patch(multiprocessing, "Pool", Pool)
    if hasattr(tr, "Pool"):
      ctx.patch(tr, "Pool", Pool)
    kw = dict(n_jobs=2, mp_manager=Manager())
    ctx.cover("own pool")
  opened = []
  if own_manager:
    ctx.cover("own manager")

    class Own(Manager):

      def __enter__(self):
        opened.append(self)
        return self

      def __exit__(self, *a):
        opened.append(None)

      def start(self):
        opened.append(self)

      def shutdown(self):
        opened.append(None)

    replace_managers(ctx, ctx.mod("sample._training"), Own)
    del kw["mp_manager"]
  r, e = ctx.raises(lambda: m.fit(x, _fit_args=args, **kw), Boom)
  if own_pool:
    ctx.check(Pool.processes == 2, "as many processes as asked for")
  if own_manager:
    ctx.check(len(opened) == 2 and opened[0] is not None and opened[1] is None, "one manager is started and stopped")
  if order != sorted(order):
    ctx.cover("out of order")
  ctx.check(m.sinusoidal.intermediate is sto[0], "the model's own storage is back (sinusoidal)")
  if beats:
    ctx.check(m.beat_decisor.intermediate is sto[1], "the model's own storage is back (decisor)")
  # progress
  if not failing:
    kinds = [k for k, _ in log]
    ctx.check(kinds.count("start") == kinds.count("stop") and kinds[-1] == "stop", "every progress ends")
    ctx.check([v for k, v in log if k == "start"][-1] == n, "progress of the tracks")
    ctx.check(n == 0 or "update" in kinds, "progress is reported")
  ups, total = [], None
  for k, v in log:
    if k == "start":
      total, ups = v, []
    elif k == "update":
      ups.append(v)
      if v is not None and total is not None:
        ctx.check(0 <= v <= n, "reported progress is within the number of jobs")
      ctx.check(sum(u is None for u in ups) <= max(n, 0), "no more steps of progress than jobs")
      vals = [u for u in ups if u is not None]
      ctx.check(all(a <= b for a, b in zip(vals, vals[1:])), "reported progress never decreases")
  if failing:
    ctx.cover("failure")
    ctx.check(e is not None, "the failure of a job is raised")
    if e is not None:
      ctx.check(e.args[0] == fail, "the failure is the job's one")
    return
  ctx.cover("success")
  ctx.check(e is None and r is m, "fit returns the model")
  ctx.check(sorted(order) == list(range(n)), "every job runs once")
  ser.fit(x)
  ctx.eq(m.param_matrix_, ser.param_matrix_, "same parameters as serial fitting, in the same order", tol=0)
  pairs = [(sto[0], ser.sinusoidal.intermediate)] + ([(sto[1], ser.beat_decisor.intermediate)] if beats else [])
  for a, b in pairs:
    sa, sb = a.get_state(), b.get_state()
    sa.pop("old", None)
    ctx.check(set(sa) == set(sb), "same stored quantities as serial fitting")
    for k in sb:
      ctx.check(len(sa.get(k, ())) == len(sb[k]), f"same number of stored values ({k})")
      for u, v in zip(sa.get(k, ()), sb[k]):
        ctx.check(u == v if not hasattr(u, "shape") else bool(u == v), f"same stored values ({k})")


def configs(tier):
  K = 2 if tier != "thorough" else 3
  q = [(f"ok{n}", parallel, dict(n=n, polls=K if n < 3 else K - 1)) for n in range(4)]
  q += [(f"fail{n}", parallel, dict(n=n, polls=K if n < 3 else 1, failing=True)) for n in (1, 2, 3)]
  q += [("nosave2", parallel, dict(n=2, polls=1, save=False)), ("plain2", parallel, dict(n=2, polls=K, beats=False)),
        ("own2", parallel, dict(n=2, polls=1, own_pool=True)), ("ownm2", parallel, dict(n=2, polls=1, own_manager=True)),
        ("own2both", parallel, dict(n=2, polls=1, own_pool=True, own_manager=True)), ("own2fail", parallel, dict(n=2, polls=1, own_pool=True, own_manager=True, failing=True)), ("stale2", parallel, dict(n=2, polls=1, stale=True))]
  for how in ("none", "zero", "pool"):
    q += [(f"serial{n} {how}", serial, dict(size=8, n=n, hop=2, how=how)) for n in (0, 2)]
  q += [(f"frames{k},{h}", serial, dict(size=k, n=None, hop=h, how="none")) for k, h in ((4, 2), (9, 2), (13, 5))]
  return q
