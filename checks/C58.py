"""C58 progress displays follow the analysis"""
import threading
import time

from checks.C19 import model, stand_ins

GUI = True
BOUNDS = ("sequences of 1..4 (5 thorough) starts, steps, jumps and ends with any maximum, any value and any time between them, on the bar of the interface and of the example script, with and without a bar, with any step failing to be drawn; "
          "analyses of 0..3 tracks, serial and with jobs that become ready in any order")
OUTSIDE = "the drawing of the bar (stand-ins that record what they are told); real threads (a lock that is taken twice is reported, contention is not modelled)"
ASSUMPTIONS = ["time never goes back"]
COVERS = {"gui", "script", "no bar", "shown", "held back", "explicit", "step", "restarted", "finished", "cannot draw", "serial", "parallel"}


class Broken(Exception):
  pass


class TkBar:
  """progress bar of the toolkit"""

  def __init__(self, fail=None):
    self.o = {"value": 0, "maximum": 100}
    self.shown, self.fail = [], fail

  def config(self, cnf=None, **k):
    if self.fail == len(self.shown):
      self.fail = None
      raise Broken()
    self.o.update({**(cnf or {}), **k})

  configure = config

  def __setitem__(self, k, v):
    self.config(**{k: v})

  def __getitem__(self, k):
    return self.o[k]

  cget = __getitem__

  def step(self, amount=1):
    self.o["value"] = self.o["value"] + amount

  def update(self):
    self.shown.append((self.o["value"], self.o["maximum"]))

  update_idletasks = update

  def state(self):
    return self.o["value"], self.o["maximum"]


class TqdmBar:
  """progress bar of the terminal"""

  def __init__(self, fail=None):
    self.total, self.n, self.last_print_n, self.shown, self.fail = 100, 0, 0, [], fail

  def refresh(self, *a, **k):
    if self.fail == len(self.shown):
      self.fail = None
      raise Broken()
    self.shown.append((self.n, self.total))

  def reset(self, total=None):
    self.n, self.total = 0, self.total if total is None else total
    self.refresh()

  def update(self, n=1):
    self.n = self.n + n
    self.refresh()

  def clear(self, *a, **k):
    pass

  close = clear

  def state(self):
    return self.n, self.total


class Clock:

  def __init__(self):
    self.now = 0.

  def __call__(self):
    return self.now


class Lock:
  """a lock which cannot be taken twice"""

  def __init__(self):
    self.held = False

  def acquire(self, blocking=True, timeout=-1):
    if self.held:
      if not blocking:
        return False
      raise RuntimeError("deadlock")
    self.held = True
    return True

  def release(self):
    if not self.held:
      raise RuntimeError("release unlocked lock")
    self.held = False

  def locked(self):
    return self.held

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *a):
    self.release()


def build(ctx, which, bar):
  """fit arguments, and whether their throttle follows our clock"""
  if which == "gui":
    _, kw = ctx.mod("sample.widgets.sample").sample_factory(progressbar=bar)
    f = kw["_fit_args"]
  else:
    f = ctx.script("scripts/beatsdrop/example.py").ScriptFitArgs(progressbar=bar)
  clock, timed = Clock(), False
  for c in type(f).__mro__:
    for v in vars(c).values():
      valve = getattr(v, "valve", None)
      if valve is not None and hasattr(valve, "_time"):
        valve._time, valve._bucket, valve._memory = clock, [], []
        timed = True
  for k, v in list(vars(f).items()):
    if isinstance(v, type(threading.Lock())):
      ctx.patch(f, k, Lock())
  return f, clock, timed


def session(ctx, which, acts, bar=True, fail=None):
  b = (TkBar if which == "gui" else TqdmBar)(fail) if bar else None
  f, clock, timed = build(ctx, which, b)
  ctx.cover(which)
  if not bar:
    ctx.cover("no bar")
  cur, top = 0, None
  real = 0
  last = tried = None  # instants when a step was last shown and last tried
  for i, a in enumerate(acts):
    if i:
      clock.now = clock.now + ctx.real(f"dt{i}", 0, 1)
    k = len(b.shown) if bar else 0
    before = b.state() if bar else None
    broken = False
    if a == "start":
      top, cur = ctx.int(f"top{i}", 1, 1000), ctx.int(f"first{i}", 0, 5)
      call = lambda: f.progress_start(top, cur)  # pylint: disable=W0640
      if i:
        ctx.cover("restarted")
    elif a == "start0":
      top, cur = ctx.int(f"top{i}", 0, 1000), 0
      call = lambda: f.progress_start(top)  # pylint: disable=W0640
    elif a == "step":
      cur = cur + 1
      call = f.progress_update
      ctx.cover("step")
    elif a == "jump":
      cur = ctx.int(f"v{i}", 0, 1000)
      call = lambda: f.progress_update(cur)  # pylint: disable=W0640
      ctx.cover("explicit")
    else:
      call = f.progress_stop
    _, e = ctx.raises(call, Broken)
    if e is not None:
      ctx.cover("cannot draw")
      broken = True
    if not bar or broken:
      if a in ("step", "jump"):
        last = tried = clock.now
      continue
    shown = b.shown[k:]
    if a in ("start", "start0"):
      ctx.check(len(shown) >= 1, "the start is shown")
      v, m = b.state()
      ctx.eq(v, cur, "the bar starts from the given value", tol=0)
      ctx.eq(m, top, "the bar goes up to the maximum", tol=0)
      ctx.eq(shown[-1][0], cur, "the start is shown", tol=0)
    elif a == "stop":
      v, m = b.state()
      ctx.eq(v, m, "the bar is full at the end", tol=0)
      ctx.check(len(shown) >= 1, "the end is shown")
      ctx.eq(shown[-1][0], shown[-1][1], "the full bar is shown", tol=0)
      cur = v
      ctx.cover("finished")
    else:
      ctx.check(len(shown) <= 1, "a step is shown at most once")
      v, m = b.state()
      ctx.eq(m, before[1], "steps do not change the maximum", tol=0)
      if shown:
        ctx.cover("shown")
        ctx.eq(shown[0][0], cur, "the step is shown", tol=0)
        ctx.eq(v, cur, "the step is shown", tol=0)
        if last is not None:
          ctx.check(clock.now - last >= .2 - 1e-9 if timed else time.monotonic() - real >= .1, "steps are not shown too often")
        real = time.monotonic()
        last = clock.now
      else:
        ctx.cover("held back")
        ctx.eq(v, before[0], "steps that are not shown do not move the bar", tol=0)
        if timed:
          ctx.check(last is not None, "the first step is shown")
          if last is not None:
            ctx.check(tried - last <= .2 + 1e-9, "steps are shown again when time has passed")
      tried = clock.now


def analysis(ctx, which, n, jobs, beats):
  """what the bar shows during an analysis"""
  b = (TkBar if which == "gui" else TqdmBar)()
  f, clock, timed = build(ctx, which, b)
  m, _ = model(ctx, n, None, True, beats)
  kw = {}
  if jobs:
    Pool, Manager, _ = stand_ins(ctx, jobs)
    kw = dict(pool=Pool(), mp_manager=Manager())
    ctx.cover("parallel")
  else:
    ctx.cover("serial")
  fn = type(f).progress_update

  def update(self, *a, **k):
    clock.now += 1  # enough time passes between steps
    return fn(self, *a, **k)

  ctx.patch(type(f), "progress_update", update)
  m.fit(ctx.np.zeros(8), _fit_args=f, **kw)
  v, top = b.state()
  ctx.eq(v, top, "the bar is full at the end", tol=0)
  phase = [(0, None)]
  maxima = []
  for v, top in b.shown:
    if phase[-1][1] is None or top != phase[-1][1] or v < phase[-1][0]:
      maxima.append(top)
    phase.append((v, top))
    ctx.check(0 <= v <= top, "the value is within the bar")
  ctx.check(n in maxima or n == 0, "the bar counts the tracks")
  ctx.check(len(b.shown) >= 2, "starts and ends are shown")
  del timed


def configs(tier):
  import itertools
  K = 4 if tier == "quick" else 5
  for which in ("gui", "script"):
    yield f"{which} fresh", session, dict(which=which, acts=["step", "jump", "step", "stop"])
    for acts in itertools.product(("step", "jump", "start", "stop"), repeat=K - 1):
      if "start" in acts[1:] and acts.index("start") == 0 or acts.count("start") > 1 or acts.count("stop") > 1 or acts[0] == "stop" and acts[1] == "start" and K > 4:
        continue
      yield f"{which} {' '.join(acts)}", session, dict(which=which, acts=["start", *acts])
    yield f"{which} from zero", session, dict(which=which, acts=["start0", "step", "stop", "start0", "stop"])
    yield f"{which} no bar", session, dict(which=which, acts=["start", "step", "jump", "stop"], bar=False)
    for i in range(4):
      yield f"{which} broken {i}", session, dict(which=which, acts=["start", "step", "stop", "start0", "jump"], fail=i)
    for n in range(4):
      yield f"{which} fit {n}", analysis, dict(which=which, n=n, jobs=0, beats=bool(n % 2))
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
      yield f"{which} fit {n} parallel", analysis, dict(which=which, n=n, jobs=2, beats=False)
