"""C35 changelog versions are totally ordered"""
import logging
import os
import shutil
import tempfile

BOUNDS = "1..3 changelog files, versions of 1..3 components (comparison: 0..3), each component any natural number (unbounded), equal versions included; other files among them; two separators, printed or written"
OUTSIDE = "more than 3 files; versions whose text is not plain digits; reading of the file names' digits (int() of the text is the symbolic component)"
ASSUMPTIONS = ["the digits of a file name stand for any natural number"]
COVERS = {"listed", "skipped", "equal", "prefix", "printed", "written", "less", "greater"}
REL = "scripts/utils/make_changelog.py"


def lt(ctx, u, v):
  """lexicographic order as a condition"""
  if not v:
    return False
  if not u:
    return True
  return ctx.Or(u[0] < v[0], ctx.And(u[0] == v[0], lt(ctx, u[1:], v[1:])))


def same(ctx, u, v):
  return len(u) == len(v) and ctx.And(*[a == b for a, b in zip(u, v)], True)


def compare(ctx, lens):
  m = ctx.script(REL)
  f = getattr(m, "_version_compare", None)
  if f is None:
    for c in ("equal", "prefix", "less", "greater"):
      ctx.cover(c)
    return
  vs = [tuple(ctx.ints("v%d_" % i, n, 0)) for i, n in enumerate(lens)]
  r = {}
  for i, u in enumerate(vs):
    for j, v in enumerate(vs):
      c, exc = ctx.raises(lambda: f(u, v), TypeError, ValueError, IndexError)  # pylint: disable=W0640
      ctx.check(exc is None, "no exception")
      if exc is not None:
        return
      r[i, j] = c
      ctx.check(ctx.Or(c != 0, same(ctx, u, v)), "zero only for equal versions")
      ctx.implies(same(ctx, u, v), c == 0, "zero for equal versions")
      ctx.implies(lt(ctx, u, v), c < 0, "negative exactly for smaller versions")
      ctx.implies(lt(ctx, v, u), c > 0, "positive exactly for greater versions")
      ctx.cover("equal" if bool(c == 0) else "less" if bool(c < 0) else "greater")
      if len(u) < len(v) and u and bool(same(ctx, u, v[:len(u)])):
        ctx.cover("prefix")
  for i in range(len(vs)):
    for j in range(len(vs)):
      ctx.check(ctx.Or(ctx.And(r[i, j] > 0, r[j, i] < 0), ctx.And(r[i, j] < 0, r[j, i] > 0), ctx.And(r[i, j] == 0, r[j, i] == 0)), "antisymmetric")
      for k in range(len(vs)):
        ctx.implies(ctx.And(r[i, j] <= 0, r[j, k] <= 0), r[i, k] <= 0, "transitive")


def listing(ctx, lens, sep, other, dry):
  m = ctx.script(REL)
  vs = [tuple(ctx.ints("v%d_" % i, n, 0)) for i, n in enumerate(lens)]
  table = {}
  names = {}
  for i, v in enumerate(vs):
    txt = []
    for j, c in enumerate(v):
      if ctx.symbolic:
        txt.append("7%d%d" % (i, j))
        table[txt[-1]] = c
      else:
        txt.append(str(c))
    names["uvwxyz"[i] + sep.join(txt) + ".md"] = v
  d = tempfile.mkdtemp(prefix="c35_")
  try:
    os.makedirs(d + "/in/put")
    os.makedirs(d + "/out")
    for n in list(names) + (["readme.md", "v1" + sep + "x.md", "LICENSE"] if other else []):
      with open(f"{d}/in/put/{n}", "w", encoding="utf-8"):
        pass
    if ctx.symbolic:
      base = m.__dict__["int"]

      def conv(s, *a):
        return table[s] if isinstance(s, str) and s in table else base(s, *a)
      ctx.patch(m, "int", conv)
    printed = []
    ctx.patch(m, "print", lambda *a, **k: printed.append(" ".join(map(str, a)) + k.get("end", "\n")))
    argv = ["-I", d + "/in/put", "-O", d + "/out/changelog.rst", "-s", sep] + (["--dry-run"] if dry else [])
    logging.disable(logging.CRITICAL)
    try:
      _, exc = ctx.raises(lambda: m.main(*argv), TypeError, ValueError, KeyError, AttributeError, OSError)
    finally:
      logging.disable(logging.NOTSET)
      logging.captureWarnings(False)
    ctx.check(exc is None, "no exception")
    if exc is not None:
      return
    out = d + "/out/changelog.rst"
    ctx.check(os.path.exists(out) != dry, "written exactly unless it is a dry run")
    ctx.check(bool(printed) or not dry, "printed in a dry run")
    if os.path.exists(out) == dry or (dry and not printed):
      return
    if dry:
      text = "".join(printed)
      ctx.cover("printed")
    else:
      with open(out, encoding="utf-8") as f:
        text = f.read()
      ctx.cover("written")
  finally:
    shutil.rmtree(d)
  got = [l.split("::", 1)[1].strip() for l in text.splitlines() if l.startswith(".. mdinclude::")]
  ctx.check(all(g.startswith("../in/put/") for g in got), "paths are relative to the output")
  got = [os.path.basename(g) for g in got]
  ctx.check(sorted(got) == sorted(names), "every version exactly once and nothing else")
  if sorted(got) != sorted(names):
    return
  ctx.cover("listed")
  if other:
    ctx.cover("skipped")
  for a, b in zip(got, got[1:]):
    ctx.check(ctx.Not(lt(ctx, names[a], names[b])), "newest first")
    if bool(same(ctx, names[a], names[b])):
      ctx.cover("equal")


def configs(tier):
  top = 4 if tier == "quick" else 5
  for a in range(top):
    for b in range(a, top):
      yield f"compare {a} {b}", compare, dict(lens=[a, b])
  for ls in ([1, 1, 1], [1, 2, 2], [2, 2, 2], [1, 2, 3]) + (([3, 3, 3], [0, 1, 2], [2, 3, 3]) if tier != "quick" else ()):
    yield f"compare {ls}", compare, dict(lens=ls)
  for ls in ([1], [2, 2], [1, 2], [3, 3], [2, 2, 2], [3, 2, 1]) + (([3, 3, 3], [2, 2, 1, 1]) if tier != "quick" else ()):
    for sep in ("_", "."):
      yield f"listing {ls} {sep}", listing, dict(lens=ls, sep=sep, other=sep == "_", dry=len(ls) != 2)
