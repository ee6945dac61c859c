"""Explores every path of every harness of a check, discharges its obligations
with z3, replays counterexamples on the unpatched code, writes the evidence."""
import importlib.util
import json
import multiprocessing as mp
import os
import queue as _queue
import random
import signal
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")


def child_env():
  e = dict(os.environ)
  e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", SDL_VIDEODRIVER="dummy",
           SDL_AUDIODRIVER="dummy", PYGAME_HIDE_SUPPORT_PROMPT="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MKL_NUM_THREADS="1", PYTHONPATH=ROOT)
  return e


class Server:
  """one subprocess running harnesses concretely"""

  def __init__(self, path):
    self.path, self.p = path, None

  def ask(self, q, timeout=120):
    if self.p is None or self.p.poll() is not None:
      self.p = subprocess.Popen([sys.executable, "-m", "symx.concrete", self.path], stdin=subprocess.PIPE,
                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=child_env(), cwd=REPO, text=True)
    try:
      self.p.stdin.write(json.dumps(q) + "\n")
      self.p.stdin.flush()
    except BrokenPipeError:
      self.p = None
      return {"ok": True, "dead": True}
    import select
    r, _, _ = select.select([self.p.stdout], [], [], timeout)
    if not r:
      self.close()
      return {"ok": False, "timeout": True, "msg": f"no result in {timeout} s"}
    line = self.p.stdout.readline()
    if not line:
      rc = self.p.wait()
      self.p = None
      return {"ok": False, "dead": True, "msg": f"interpreter ended with {rc}"}
    return json.loads(line)

  def close(self):
    if self.p is not None:
      self.p.kill()
      self.p.wait()
      self.p = None


def _val(z3, m, v, kind):
  x = m.eval(v, model_completion=True)
  if kind == "b":
    return bool(z3.is_true(x))
  if kind == "i":
    return x.as_long() if z3.is_int_value(x) else 0
  if z3.is_rational_value(x):
    return Fraction(x.numerator_as_long(), x.denominator_as_long())
  if z3.is_algebraic_value(x):
    a = x.approx(20)
    return Fraction(a.numerator_as_long(), a.denominator_as_long())
  return Fraction(0)


def inputs_of(E, m):
  import z3
  r = {}
  for n, (k, v) in E.inputs.items():
    x = _val(z3, m, v, k)
    if isinstance(x, Fraction):
      try:
        x = float(x)
      except OverflowError:
        x = 1e308 if x > 0 else -1e308
    r[n] = x
  return r


def models(E, extras, budget=8000):
  """distinct input assignments satisfying path condition + one of the extras"""
  import z3
  seen = set()
  reals = [v for k, v in E.inputs.values() if k == "r"]
  for ex_ in extras:
    for stage in ("dyadic", "bounded", "plain"):
      cs = list(ex_)
      if stage == "dyadic":
        for j, v in enumerate(reals):
          k = z3.Int(f"dy!{j}")
          cs += [v * 8 == z3.ToReal(k), k <= 8000, k >= -8000]
      elif stage == "bounded":
        for v in reals:
          cs += [v <= 10000, v >= -10000]
      r, m = E.full_model(cs, timeout=budget if stage != "dyadic" else budget // 2)
      if r == "sat" and m is not None:
        inp = inputs_of(E, m)
        k = json.dumps(inp, sort_keys=True, default=str)
        if k not in seen:
          seen.add(k)
          yield inp
      elif r == "unsat" and stage == "plain":
        break


class Job:
  """exploration of one configuration"""

  def __init__(self, pid, mod, cfg, tier, server, deadline):
    self.pid, self.mod, self.cfg, self.tier, self.server, self.deadline = pid, mod, cfg, tier, server, deadline
    self.res = dict(name=cfg["name"], paths=0, assumed_away=0, checks=0, proved=0, trivial=0, algebraic=0, incomplete=[],
                    unreproduced=[], concretised=[], covers={}, violation=None, funcs=[], validated=0, samples=[],
                    complete=False, error=None)

  def concrete(self, inputs, perturb=0):
    kinds = {n: k for n, (k, _) in self.E.inputs.items()}
    return self.server.ask(dict(harness=self.cfg["harness"], params=self.cfg["params"], inputs=inputs, perturb=perturb,
                                kinds=kinds, seed=int(os.environ.get("VERIF_SEED", "1") or 1)))

  def violation(self, inputs, r, msg, how):
    from .core import Violated
    self.res["violation"] = dict(config=self.cfg["name"], harness=self.cfg["harness"], params=self.cfg["params"],
                                 inputs=inputs, message=r.get("msg", msg), obligation=msg, how=how)
    raise Violated()

  def budget(self):
    """time for a hard obligation: less once several went without a verdict"""
    return self.E.ct if len(self.res["incomplete"]) < 4 else min(self.E.ct, 2000)

  def candidates(self, msg, n=40):
    """an obligation the solver does not decide quickly: try inputs of the declared ranges on the real code"""
    E, R = self.E, self.res
    if R.get("searches", 0) >= 4 or not any(k == "r" for k, _ in E.inputs.values()):
      return
    R["searches"] = R.get("searches", 0) + 1
    rng = random.Random(f"{os.environ.get('VERIF_SEED', 1)}/{self.cfg['name']}/{R['searches']}")
    base = None
    for b in models(E, [[]], budget=1500):
      base = b
      break
    for i in range(n):
      inp = dict(base or {})
      for name, (k, _) in E.inputs.items():
        lo, hi = E.ranges.get(name, (None, None))
        if k == "r":
          lo = -10. if lo is None else float(lo)
          hi = lo + 20. if hi is None else float(hi)
          inp[name] = rng.uniform(lo, hi)
        elif base is None:
          inp[name] = bool(rng.getrandbits(1)) if k == "b" else rng.randint(
              int(lo) if lo is not None else 0, int(hi) if hi is not None else (int(lo) if lo is not None else 0) + 4)
      r = self.concrete(inp)
      if not r["ok"] and not r.get("assume"):
        q = self.concrete(inp, perturb=6)
        if any(not p["ok"] for p in q.get("pert", [])):
          self.violation(inp, r, msg, "no verdict of the solver; inputs of the path's domain, reproduced on the real code")

  def on_check(self, ctx, c, msg):
    import z3
    from . import trans
    from .core import S, SB, frac
    E, R = self.E, self.res
    R["checks"] += 1
    extras = None
    if isinstance(c, tuple):
      a, b, tol = c
      if a.const and b.const:
        x, y = Fraction(a.v), Fraction(b.v)
        t = frac(tol if tol else 1e-9) * (1 + abs(x) + abs(y))
        if abs(x - y) <= t:
          R["trivial"] += 1
          return
        extras = [[]]
      else:
        d = z3.simplify(a.r - b.r)
        if trans.zero_diff(a, b):
          # discharged after normalisation: the solver sees 0 != 0
          E.solve([z3.RealVal(0) != z3.RealVal(0)])
          R["algebraic"] += 1
          R["proved"] += 1
          return
        goal = d != 0
        r, _ = E.solve(E._slice(goal) + [goal], timeout=min(E.ct, 3000))
        if r == "unknown" and E.linear_unsat(E._slice(goal) + [goal]):
          r = "unsat"
        if r == "unknown":
          self.candidates(msg)
          r, _ = E.solve(E._slice(goal) + [goal], timeout=self.budget())
        if r == "unsat":
          R["proved"] += 1
          return
        m = z3.RealVal("1/1000000")
        g2 = z3.Or(d > m, d < -m)
        r2, _ = E.solve(E._slice(g2) + [g2], timeout=self.budget())
        if r2 == "unsat":
          R["proved"] += 1
          R["up_to_rounding"] = R.get("up_to_rounding", 0) + 1
          return
        if r2 == "unknown" and r == "unknown":
          R["incomplete"].append(f"{msg}: solver gave no verdict")
          return
        big = z3.RealVal("1/100")
        sc = 1 + z3.If(a.r >= 0, a.r, -a.r)
        extras = [[z3.Or(d > big * sc, d < -big * sc)], [z3.Or(d > big, d < -big)], [g2]]
    elif isinstance(c, SB):
      goal = z3.simplify(z3.Not(c.e))
      if E.opts.get("lin") and E.linear_unsat(E._slice(goal) + [goal]):
        R["proved"] += 1
        return
      r, _ = E.solve(E._slice(goal) + [goal], timeout=min(E.ct, 3000))
      if r == "unknown" and not E.opts.get("lin") and E.linear_unsat(E._slice(goal) + [goal]):
        r = "unsat"
      if r == "unknown":
        self.candidates(msg)
        r, _ = E.solve(E._slice(goal) + [goal], timeout=self.budget())
      if r == "unsat":
        R["proved"] += 1
        return
      if r == "unknown":
        R["incomplete"].append(f"{msg}: solver gave no verdict")
        return
      extras = [[goal]]
    elif c:
      R["trivial"] += 1
      return
    else:
      extras = [[]]
    tried = []
    for inp in models(E, extras):
      r = self.concrete(inp)
      if not r["ok"]:
        self.violation(inp, r, msg, "counterexample of the solver, reproduced on the real code")
      tried.append(inp)
      if len(tried) >= 6:
        break
    if not tried:
      r, _ = E.full_model((extras[-1]), timeout=E.ct)
      if r == "unsat":
        R["proved"] += 1
        return
      R["incomplete"].append(f"{msg}: no model of the path")
      return
    R["unreproduced"].append(dict(msg=msg, inputs=tried[0]))

  def on_exception(self, e, tb):
    """an exception or unsupported operation on a path: run the path's model concretely"""
    from .core import Unsupported
    E, R = self.E, self.res
    name = type(e).__name__
    n = 0
    uns = isinstance(e, Unsupported)
    for inp in models(E, [[]], budget=4000):
      r = self.concrete(inp, perturb=6)
      n += 1
      if not r["ok"] and not r.get("assume"):
        same = r.get("exc") == name
        again = [p for p in r.get("pert", []) if not p["ok"]]
        if (same and not uns) or again:
          self.violation(inp, r, f"{name}: {e}", "path ended by an exception, reproduced on the real code")
      for p in r.get("pert", []):
        if not p["ok"] and p.get("exc") is None:
          q = self.concrete(p["inputs"], perturb=6)
          if not q["ok"] and any(not x["ok"] for x in q.get("pert", [])):
            self.violation(p["inputs"], q, f"{name}: {e}", "solver-chosen path, run on the real code")
      if n >= 3:
        break
    if n == 0:
      r, _ = E.full_model([], timeout=E.ct)
      if r == "unsat":
        R["assumed_away"] += 1
        return
    R["concretised"].append(f"{name}: {str(e)[:200]} @ {tb}")

  def validate(self):
    """push the model of a finished path through the real code"""
    E, R = self.E, self.res
    for inp in models(E, [[]], budget=1500):
      r = self.concrete(inp)
      R["validated"] += 1
      if len(R["samples"]) < 2:
        R["samples"].append(inp)
      if not r["ok"]:
        q = self.concrete(inp, perturb=9)
        bad = [p for p in q.get("pert", []) if not p["ok"]]
        if bad or not [k for k, _ in E.inputs.values() if k == "r"]:
          self.violation(inp, r, r.get("msg", ""), "solver-chosen path, run on the real code")
        R["unreproduced"].append(dict(msg="boundary: " + str(r.get("msg")), inputs=inp))
      break

  def run(self):
    from . import arr
    from .core import Ex, PathEnd, Unsupported, Violated
    from .ctx import Symbolic
    R, opts = self.res, self.cfg.get("opts", {})
    thorough = self.tier == "thorough"
    from . import poly, trans
    poly.REDUCE = trans.reduce_poly if opts.get("lin") else None
    poly.LIMIT = opts.get("poly_limit", 4000)
    E = self.E = Ex(qtimeout_ms=opts.get("qt", 4000 if not thorough else 10000),
                    check_timeout_ms=opts.get("ct", 15000 if not thorough else 60000), deadline=self.deadline, opts=opts)
    Ex.cur = E
    fn = getattr(self.mod, self.cfg["harness"])
    max_paths = opts.get("max_paths", 60000)
    t0 = time.time()
    nval = opts.get("validate", 12 if not thorough else 60)
    mon = Monitor()
    try:
      while True:
        E.begin()
        arr.reset_links()
        ctx = Symbolic(E, self.on_check)
        ok = False
        mon.start()
        try:
          with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx, **self.cfg["params"])
          ok = True
        except PathEnd:
          R["assumed_away"] += 1
        except (Unsupported, Exception) as e:  # pylint: disable=W0718
          if isinstance(e, TimeoutError) and "exploration deadline" in str(e):
            raise
          mon.stop()
          ctx.undo()
          tb = traceback.extract_tb(e.__traceback__)
          self.on_exception(e, "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-6:]))
          R["paths"] += 1
          if os.environ.get("SYMX_DEBUG"):
            traceback.print_exception(e)
        finally:
          mon.stop()
          ctx.undo()
        if ok:
          R["paths"] += 1
          if ctx.n_checks == 0:
            R["unchecked_paths"] = R.get("unchecked_paths", 0) + 1
          for c in ctx.covers:
            R["covers"][c] = R["covers"].get(c, 0) + 1
          n = R["paths"]
          if R["validated"] < nval and (n <= 4 or n & (n - 1) == 0 or n % 25 == 0) and time.time() < self.deadline:
            self.validate()
        if not E.next_trail():
          R["complete"] = True
          break
        if R["paths"] + R["assumed_away"] > max_paths:
          R["incomplete"].append(f"more than {max_paths} paths")
          break
    except Violated:
      pass
    except TimeoutError:
      R["incomplete"].append("exploration stopped at the deadline")
    R["funcs"] = sorted(mon.funcs)
    s = E.stats
    R.update(queries=s.queries, solver_s=round(s.solver_s, 3), unknown=s.unknown, decisions=s.decisions,
             wall=round(time.time() - t0, 2))
    return R


class Monitor:
  """names of the repository functions that were executed symbolically"""

  def __init__(self):
    self.funcs = set()
    self.on = False
    m = sys.monitoring
    self.tool = 3
    if m.get_tool(self.tool) is None:
      m.use_tool_id(self.tool, "symx")
    m.register_callback(self.tool, m.events.PY_START, self.cb)

  def cb(self, code, off):
    fn = code.co_filename
    if "/sample/" in fn and "site-packages" not in fn or "/scripts/" in fn:
      self.funcs.add(f"{os.path.relpath(fn, REPO)}:{code.co_qualname}")
    return sys.monitoring.DISABLE

  def start(self):
    sys.monitoring.set_events(self.tool, sys.monitoring.events.PY_START)

  def stop(self):
    sys.monitoring.set_events(self.tool, 0)


def worker(pid, path, tier, jobs, results, deadline, stop):
  os.setpgid(0, 0) if False else None
  from . import concrete
  mod = concrete.load_check(path)
  server = Server(path)
  if not os.environ.get("SYMX_DEBUG"):
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
  try:
    while not stop.is_set():
      try:
        cfg = jobs.get(timeout=0.2)
      except _queue.Empty:
        break
      j = Job(pid, mod, cfg, tier, server, deadline)
      try:
        if time.time() > deadline:
          j.res["incomplete"].append("not explored before the deadline")
          r = j.res
        else:
          r = j.run()
      except BaseException as e:  # pylint: disable=W0718
        r = j.res
        r["error"] = "".join(traceback.format_exception(e))[-3000:]
      results.put(r)
      if r["violation"]:
        stop.set()
  finally:
    server.close()
    results.put(None)
    results.close()
    results.join_thread()
    os._exit(0)


def load_findings(pid):
  out = []
  p = os.path.join(ROOT, "known_findings.txt")
  if os.path.exists(p):
    for l in open(p):
      l = l.strip()
      if l.startswith("KNOWN-FINDING:") and f"property={pid} " in l + " ":
        out.append(l)
  return out


def main(argv):
  pid = argv[0]
  tier = os.environ.get("VERIF_TIER", "quick")
  tier = tier if tier in ("quick", "thorough") else "quick"
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  path = os.path.join(ROOT, "checks", pid + ".py")
  os.environ.update({k: v for k, v in child_env().items() if k != "PYTHONPATH"})
  if len(argv) > 2 and argv[1] == "--replay":
    return replay(pid, path, argv[2])
  t0 = time.time()
  deadline = t0 + (int(os.environ.get("SYMX_DEADLINE", "0")) or (600 if tier == "quick" else 3000))
  os.chdir(REPO)
  sys.path.insert(0, REPO)
  from . import concrete
  mod = concrete.load_check(path)
  try:
    from . import env
    env.load(gui=getattr(mod, "GUI", False))
  except Exception:  # pylint: disable=W0718
    # the code under test does not even import
    traceback.print_exc()
    print(f"{pid}: cannot load the code under test")
    return 2
  cfgs = []
  for c in mod.configs(tier):
    name, h, params = c[:3]
    cfgs.append(dict(name=name, harness=h.__name__, params=params, opts=c[3] if len(c) > 3 else {}))
  only = os.environ.get("SYMX_ONLY")
  if only:
    cfgs = [c for c in cfgs if only in c["name"]]
  ctxm = mp.get_context("fork")
  jobs, results, stop = ctxm.Queue(), ctxm.Queue(), ctxm.Event()
  for c in cfgs:
    jobs.put(c)
  n = max(1, min(int(os.environ.get("SYMX_JOBS", "8")), len(cfgs)))
  ps = [ctxm.Process(target=worker, args=(pid, path, tier, jobs, results, deadline, stop), daemon=False)
        for _ in range(n)]
  for p in ps:
    p.start()
  out, alive = [], n
  viol = None
  grace = None
  while alive:
    try:
      r = results.get(timeout=1)
    except _queue.Empty:
      if all(not p.is_alive() for p in ps):
        break
      if grace and time.time() > grace or time.time() > deadline + 200:
        break
      continue
    if r is None:
      alive -= 1
      continue
    out.append(r)
    if r["violation"] and viol is None:
      viol = r["violation"]
      grace = time.time() + 3
  for p in ps:
    if p.is_alive():
      p.terminate()
      p.join(2)
      if p.is_alive():
        p.kill()
  return finish(pid, tier, seed, mod, cfgs, out, viol, t0)


def finish(pid, tier, seed, mod, cfgs, out, viol, t0):
  done = {r["name"] for r in out}
  missing = [c["name"] for c in cfgs if c["name"] not in done]
  tot = lambda k: sum(r.get(k, 0) for r in out)
  incomplete = [f"{r['name']}: {x}" for r in out for x in r["incomplete"]]
  if viol is None:
    incomplete += [f"{m}: no result" for m in missing]
  errors = [f"{r['name']}: {r['error']}" for r in out if r["error"]]
  conc = [f"{r['name']}: {x}" for r in out for x in r["concretised"]]
  unrep = [dict(config=r["name"], **x) for r in out for x in r["unreproduced"]]
  covers = {}
  for r in out:
    for k, v in r["covers"].items():
      covers[k] = covers.get(k, 0) + v
  want = set(getattr(mod, "COVERS", ()))
  if tier == "quick" and isinstance(getattr(mod, "COVERS_QUICK", None), (set, tuple, list)):
    want = set(mod.COVERS_QUICK)
  vac = sorted(want - set(covers))
  funcs = sorted({f for r in out for f in r["funcs"]})
  samples = [dict(config=r["name"], inputs=s) for r in out for s in r["samples"][:1]][:6]
  known = load_findings(pid)
  ev = {
      "property": pid, "tier": tier, "seed": seed, "level": "other",
      "coverage": {
          "explanation": "Path-exhaustive symbolic execution of the repository's own functions (current working tree) "
                         "with z3: on every feasible path within the bounds the obligation's negation is refuted by the "
                         "solver for all real/integer inputs of that path. Floats are treated as exact reals.",
          "bounds": getattr(mod, "BOUNDS", ""),
          "outside": getattr(mod, "OUTSIDE", ""),
          "evaluations": tot("paths"),
          "distinct_nontrivial": tot("paths") - tot("unchecked_paths"),
          "rule": "one evaluation = one feasible execution path of a harness with symbolic inputs; paths are distinct by "
                  "construction (different branch decisions); non-trivial = reached at least one obligation",
          "configurations": len(cfgs), "configurations_finished": len(out),
          "paths_excluded_by_assumptions": tot("assumed_away"),
          "obligations": tot("checks"), "discharged_by_solver": tot("proved"), "of_which_by_normal_form": tot("algebraic"),
          "constant_true": tot("trivial"), "proved_up_to_1e-6": tot("up_to_rounding"),
          "solver_queries": tot("queries"), "solver_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2),
          "branch_decisions": tot("decisions"),
          "functions_encoded": funcs,
          "path_models_validated_on_real_code": tot("validated"),
          "covers_reached": covers, "covers_missing": vac,
          "undecided": incomplete[:40], "undecided_count": len(incomplete),
          "paths_run_concretely_only": conc[:20], "paths_run_concretely_only_count": len(conc),
          "unreproduced_counterexamples": unrep[:10], "unreproduced_count": len(unrep),
          "per_config": {r["name"]: dict(paths=r["paths"], queries=r.get("queries", 0), wall=r.get("wall", 0))
                         for r in out},
          "samples": samples,
      },
      "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
          "floating-point arithmetic is treated as exact real arithmetic",
          "numpy primitives are modelled by the engine (symx/arr.py); path models are re-run on the real code",
      ],
      "known_findings": known,
      "violations": 1 if viol else 0,
      "wall_s": round(time.time() - t0, 2),
  }
  rc = 0
  if viol:
    d = os.path.join(ROOT, "replays", pid)
    os.makedirs(d, exist_ok=True)
    k = 1
    while os.path.exists(os.path.join(d, f"{k}.json")):
      k += 1
    rp = os.path.join(d, f"{k}.json")
    with open(rp, "w") as f:
      json.dump(dict(property=pid, **viol), f, indent=1, default=str)
    ev["violation"] = dict(replay=rp, **viol)
    rc = 1
  os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
  with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
    json.dump(ev, f, indent=1, default=str)
  c = ev["coverage"]
  print(f"{pid} [{tier}]: {c['configurations_finished']}/{c['configurations']} configurations, {c['evaluations']} paths, "
        f"{c['obligations']} obligations ({c['discharged_by_solver']} by solver, {c['constant_true']} constant), "
        f"{c['solver_queries']} queries, {c['solver_s']} s solver, {c['path_models_validated_on_real_code']} models "
        f"validated, {ev['wall_s']} s")
  for l in known:
    print(l)
  for l in incomplete[:8]:
    print("INCOMPLETE", l[:300])
  for l in conc[:8]:
    print("CONCRETISED", l[:400])
  for l in unrep[:5]:
    print("UNREPRODUCED", json.dumps(l, default=str)[:400])
  if vac:
    print("NOT-COVERED", ", ".join(vac))
  if viol:
    print("counterexample:", json.dumps(viol, default=str)[:1500])
    print(f"VIOLATION property={pid} replay={rp}")
    return 1
  if errors:
    for e in errors[:3]:
      print("ENGINE ERROR", e)
    return 2
  return rc


def replay(pid, path, rp):
  v = json.load(open(rp))
  s = Server(path)
  r = s.ask(dict(harness=v["harness"], params=v["params"], inputs=v["inputs"]))
  s.close()
  print(json.dumps(r, indent=1))
  if not r["ok"]:
    print(f"VIOLATION property={pid} replay={rp}")
    return 1
  return 0


if __name__ == "__main__":
  rc = main(sys.argv[1:])
  sys.stdout.flush()
  os._exit(rc)
