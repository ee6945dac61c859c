#!/usr/bin/env python3
"""tools/seed.py SPEC...: make and confirm planted bugs (development aid).

SPEC text: '--- id C01-name', '--- needs', '--- breaks', '--- edit FILE' (<<<< old ==== new >>>>), '--- demo' (python).
Confirms in a scratch copy: applies, tests pass, demo passes without / fails with the change, and runs the check."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = """#!/bin/bash
# run with cwd at the root of the repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""

def run(spec, notest=False, nocheck=False):
  parts = re.split(r"^--- (\w+) ?(.*)\n", spec, flags=re.M)[1:]
  secs = [(parts[i], parts[i + 1].strip(), parts[i + 2]) for i in range(0, len(parts), 3)]
  g = lambda k: next(s for s in secs if s[0] == k)
  sid = g("id")[1]
  prop = sid.split("-")[0]
  d = tempfile.mkdtemp(prefix="seed")
  try:
    r = d + "/repo"
    shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    out = ROOT + "/seeded/" + sid
    os.makedirs(out, exist_ok=True)
    with open(out + "/demo.sh", "w") as f: f.write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    with open(out + "/demo.py", "w") as f: f.write(g("demo")[2].strip() + "\n")
    with open(out + "/meta.json", "w") as f:
      json.dump({"property": prop, "needs": g("needs")[2].strip(), "what_it_breaks": g("breaks")[2].strip()}, f, indent=1)
    sh = lambda c, **k: subprocess.run(c, shell=True, cwd=r, capture_output=True, text=True, **k)
    ok0 = sh("bash " + out + "/demo.sh", timeout=300)
    for _, fn, body in [s for s in secs if s[0] == "edit"]:
      p = r + "/" + fn
      s = open(p).read()
      for o, n in re.findall(r"<<<<\n(.*?)====\n(.*?)>>>>\n", body, flags=re.S):
        assert s.count(o) == 1, (sid, fn, s.count(o), o)
        s = s.replace(o, n)
      open(p, "w").write(s)
    diff = sh("git diff").stdout
    with open(out + "/patch.diff", "w") as f: f.write(diff)
    ok1 = sh("bash " + out + "/demo.sh", timeout=300)
    res = [sid, "clean demo", ok0.returncode, "patched demo", ok1.returncode]
    if ok0.returncode: print(ok0.stdout[-800:], ok0.stderr[-1500:])
    if not ok1.returncode: print("NOT FAILING", ok1.stdout[-500:])
    env = {**os.environ, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "SDL_VIDEODRIVER": "dummy", "SDL_AUDIODRIVER": "dummy", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "GIT_ALLOW_PROTOCOL": "file", "GIT_TERMINAL_PROMPT": "0", "PYTHONPATH": r}
    if not notest:
      t = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n 8 --tb=line -o junit_family=xunit2 --junitxml={d}/j.xml tests", env=env)
      subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", d + "/o.json", f"junit:{d}/j.xml"], cwd=r)
      o = json.load(open(d + "/o.json"))
      ps = o.get("passed", o)
      ps = set(ps) if not isinstance(ps, dict) else {k for k, v in ps.items() if v in ("passed", True)}
      res += ["tests broken:", sorted(STABLE - ps)[:5]]
    if not nocheck:
      c = subprocess.run(["./check", prop], env=dict(os.environ, SYMX_REPO=r), capture_output=True, text=True, cwd=ROOT)
      v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
      res += ["check rc", c.returncode, (v or c.stdout.splitlines()[-1:] or ["?"])[0][:160]]
    print(*res, flush=True)
  finally:
    shutil.rmtree(d)

if __name__ == "__main__":
  a = sys.argv[1:]
  nt, nc = "--notest" in a, "--nocheck" in a
  for f in [x for x in a if not x.startswith("--")]:
    for spec in re.split(r"^(?=--- id )", open(f).read(), flags=re.M):
      if spec.strip():
        try:
          run(spec, nt, nc)
        except Exception as e:
          print("SPEC FAILED", spec[:40], repr(e)[:300], flush=True)
