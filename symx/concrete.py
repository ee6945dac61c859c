"""Concrete runs of a harness on the unpatched code (replay of counterexamples)."""
import importlib.util
import json
import os
import random
import sys
import traceback
import warnings


def load_check(path):
  spec = importlib.util.spec_from_file_location("vcheck_mod", path)
  m = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(m)
  return m


def run_once(mod, harness, params, inputs):
  from symx.ctx import AssumeFailed, Concrete
  ctx = Concrete(inputs)
  out = {"ok": True}
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      import numpy as np
      with np.errstate(all="ignore"):
        getattr(mod, harness)(ctx, **params)
  except AssumeFailed as e:
    if not ctx.failures:
      return {"ok": True, "assume": True}
  except Exception as e:  # pylint: disable=W0718
    tb = traceback.extract_tb(e.__traceback__)
    out = {"ok": False, "exc": type(e).__name__, "msg": f"{type(e).__name__}: {e}"[:500],
           "in_code": any("/sample/" in f.filename or "/scripts/" in f.filename for f in tb),
           "where": "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])}
  finally:
    ctx.undo()
  if ctx.failures:
    out = {"ok": False, "msg": ctx.failures[0], "fails": ctx.failures[:5]}
  out["checks"] = ctx.n_checks
  return out


def perturb(inputs, kinds, rng, scale):
  r = {}
  for k, v in inputs.items():
    kd = kinds.get(k, "r")
    if kd == "r":
      v = float(v)
      r[k] = v + scale * (abs(v) + 0.1) * rng.uniform(-1, 1)
    else:
      r[k] = v
  return r


def main():
  repo = os.environ.get("SYMX_REPO", "/repo")
  sys.path.insert(0, repo)
  mod = load_check(sys.argv[1])
  # replies go to the original stdout, anything the code prints is dropped
  out = os.fdopen(os.dup(1), "w")
  os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
  os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
  for line in sys.stdin:
    q = json.loads(line)
    r = run_once(mod, q["harness"], q["params"], q["inputs"])
    if q.get("perturb"):
      rng = random.Random(q.get("seed", 1))
      r["pert"] = []
      for i in range(q["perturb"]):
        p = perturb(q["inputs"], q["kinds"], rng, 10.0**(-3 + i % 3))
        x = run_once(mod, q["harness"], q["params"], p)
        x["inputs"] = p
        r["pert"].append(x)
    out.write(json.dumps(r, default=str) + "\n")
    out.flush()


if __name__ == "__main__":
  main()
