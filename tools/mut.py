#!/usr/bin/env python3
"""tools/mut.py CHECK FILE OLD NEW [OLD NEW ...]: run a check on a scratch copy of /repo with text replaced (development aid)"""
import os, shutil, subprocess, sys, tempfile
chk, f, *pairs = sys.argv[1:]
d = tempfile.mkdtemp(prefix="mut")
try:
  shutil.copytree(os.environ.get("MUT_SRC", "/repo"), d + "/repo", ignore=shutil.ignore_patterns(".git", "docs"), symlinks=True)
  p = d + "/repo/" + f
  s = open(p).read()
  for o, n in zip(pairs[::2], pairs[1::2]):
    o, n = o.encode().decode("unicode_escape"), n.encode().decode("unicode_escape")
    assert s.count(o) >= 1, f"{o!r} not found"
    s = s.replace(o, n, 1)
  open(p, "w").write(s)
  for c in chk.split(","):
    r = subprocess.run(["./check", c], env=dict(os.environ, SYMX_REPO=d + "/repo"), capture_output=True, text=True, cwd="/verif")
    out = r.stdout.strip().splitlines() + r.stderr.strip().splitlines()[-5:]
    v = [l for l in out if "VIOLATION" in l]
    print(c, "rc", r.returncode, "|", (v or out)[0][:150] if out else "", "|", out[-1][:200] if out else "")
    if "-v" in os.environ.get("MUTV", ""):
      print("\n".join(out[:40]))
finally:
  shutil.rmtree(d)
