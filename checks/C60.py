"""C60 formatting notebooks keeps commands and everything else"""
import os
import re
import shutil
import tempfile

from checks.symtext import Space

BOUNDS = ("lines of 0..7 (9 thorough) characters and of 30..33 (31..36) characters, every character; cells of 0..3 lines of up to 3 characters each, every character, among code, ignored, blank and text cells; a formatter that keeps, changes or rejects each cell")
OUTSIDE = "the formatter and the notebook format (stand-ins); lines which already are in the escaped form; line separators other than the line feed"
ASSUMPTIONS = ["the regular expression engine follows the parse tree of the pattern (re._parser)"]
COVERS = {"command", "plain", "indented", "escaped", "looks like escaped", "kept", "changed", "rejected", "tagged", "dry run", "ignored", "blank", "text", "written", "not written"}
REL = "scripts/utils/yapf_nbformat.py"
MARK, TAIL = "pass  # ", "  # escaped-for-yapf"
BREAKS = (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)


class Bed:

  def __init__(self, ctx):
    import logging
    self.ctx = ctx
    self.m = ctx.script(REL)
    logging.getLogger("YAPF-Notebook").setLevel(logging.CRITICAL + 1)
    self.space = Space(ctx)
    self.n = 0
    if ctx.symbolic:
      for k, v in list(vars(self.m).items()):
        if isinstance(v, re.Pattern):
          ctx.patch(self.m, k, self.space.pattern(v))
      for k in ("_wrap_command_line", "_unwrap_command_line"):  # joins of plain text lose our class
        f = getattr(self.m, k, None)
        if f is not None:
          ctx.patch(self.m, k, lambda t, f=f: f(self.text(t)))

  def text(self, s):
    return self.space.Text(s) if self.ctx.symbolic else s

  def code(self, name, lo=1, hi=0x2FFF):
    c = self.ctx.int(name, lo, hi)
    for b in BREAKS:
      self.ctx.assume(c != b)
    return c

  def free(self, name, n, lo=1):
    """n arbitrary characters"""
    out = ""
    for i in range(n):
      c = self.code(f"{name}{i}", lo)
      out += self.space.char(c) if self.ctx.symbolic else chr(int(c))
    return out

  def is_in(self, ch, chars):
    """condition: the character is one of them"""
    if self.ctx.symbolic and ch in self.space.codes:
      return self.ctx.Or(*[self.space.codes[ch] == ord(c) for c in chars])
    return ch in chars

  def same(self, a, b):
    if self.ctx.symbolic:
      return self.space.equal(a, b)
    return a == b

  def command(self, s):
    """the first character that is not a space is ! or %"""
    for c in str.__iter__(s):
      sp = self.space.is_space(c) if self.ctx.symbolic else c.isspace()
      if not sp:
        return bool(self.is_in(c, "!%"))
    return False

  def escaped(self, s):
    """the line is in the escaped form"""
    t = self.text(s)
    k = 0
    while k < len(s) and self.text(s[k]).isspace():
      k += 1
    t = self.text(s[k:])
    return len(t) > len(MARK + TAIL) and t.startswith(MARK) and bool(self.is_in(s[k + len(MARK)], "!%")) and t.endswith(TAIL)


def functions(ctx, m):
  """the two functions that escape and restore a line, whatever their names"""
  w = getattr(m, "_wrap_command_line", None)
  u = getattr(m, "_unwrap_command_line", None)
  return w, u


def line(ctx, n):
  """any short line"""
  b = Bed(ctx)
  w, u = functions(ctx, b.m)
  if w is None or u is None:
    return
  s = b.text(b.free("c", n))
  esc = w(s)
  ctx.check(isinstance(esc, str), "a line is a text")
  if b.command(s):
    ctx.cover("command")
    ctx.cover("indented" if len(s) and b.text(s[0]).isspace() else "escaped")
    t = b.text(esc)
    ctx.check("\n" not in str(esc), "an escaped command is one line")
    ctx.check(not b.command(t), "an escaped command is not a command any more")
    code = t.strip()
    ctx.check(len(code) > 4 and code.startswith("pass") and code[4:].lstrip().startswith("#"), "an escaped command is a statement with a comment")
    k = len(t) - len(t.lstrip())
    ctx.check(b.same(t[:k], s[:len(s) - len(s.lstrip())]), "indentation is kept")
  else:
    ctx.cover("plain")
    ctx.check(b.same(esc, s), "other lines are not altered")
  ctx.check(b.same(u(b.text(esc)), s), "restored")


def near(ctx, pre, mid, cut):
  """lines close to the escaped form, up to any few characters"""
  b = Bed(ctx)
  w, u = functions(ctx, b.m)
  if w is None or u is None:
    return
  form = MARK + "!" + TAIL
  body = b.free("p", pre)
  s = ""
  for i, c in enumerate(form):
    s += b.free(f"q{i}_", 1) if i in cut else c
  k = len(MARK) + 1
  s = body + s[:k] + b.free("m", mid) + s[k:]
  s = b.text(s)
  r = u(s)
  if b.escaped(s):
    ctx.cover("looks like escaped")
    ctx.check(b.command(b.text(r)) and b.same(w(b.text(r)), s), "restoring and escaping are inverse")
  else:
    ctx.check(b.same(r, s), "lines which are not in the escaped form are not restored")
    ctx.check(b.same(u(b.text(w(s))), s), "restored")


def notebook(ctx, cells, fmt, dry=False, tag=False, end=False, more=False):
  """whole notebooks; cells: kinds of cells"""
  b = Bed(ctx)
  m = b.m
  nb = []
  for i, (kind, shape) in enumerate(cells):
    if kind == "blank":
      src = "  \n" * len(shape)
    else:
      src = "\n".join((["# yapf: ignore"] if kind == "ignored" else ["x = 2", "# yapf: ignore"] if kind == "late" else []) + [b.free(f"c{i}_{j}_", n, 33 if not tag else 33) for j, n in enumerate(shape)])
    for ln in src.split("\n"):
      if b.escaped(ln):
        return
    nb.append({"cell_type": "markdown" if kind == "text" else "code", "source": b.text(src)})
  before = [str.__str__(c["source"]) for c in nb]
  seen, written = [], []

  class Notebook:
    pass

  book = Notebook()
  book.cells = nb
  from yapf.yapflib import yapf_api

  def reformat(src, *_, style_config=None, **__):
    seen.append((src, style_config))
    if fmt == "reject":
      # errors are somewhere in the code, or at its end
      at = len(str.split(str.__str__(src), "\n")) + 1 if end else 1
      raise yapf_api.errors.YapfError(f"<unknown>:{at}:0: invalid syntax")
    lines = str.split(str(src), "\n")
    if fmt == "change":
      lines = lines + ["x = 1"]
    return b.text("\n".join(lines) + "\n"), False

  ctx.patch(yapf_api, "FormatCode", reformat)
  ctx.patch(m.nbformat, "read", lambda *a, **k: book)
  ctx.patch(m.nbformat, "validate", lambda *a, **k: None)
  ctx.patch(m.nbformat, "write", lambda n, f, *a, **k: written.append((n, f if isinstance(f, str) else f.name)))
  d = tempfile.mkdtemp(prefix="c60_")
  try:
    path = os.path.join(d, "n.ipynb")
    with open(path, "w", encoding="utf-8") as f:
      f.write("as it was")
    r = m.format_nb(path, dry_run=dry, tag_errors=tag, style="some style")
    with open(path, encoding="utf-8") as f:
      touched = f.read() != "as it was"
  finally:
    shutil.rmtree(d)
  work = [i for i, (k, _) in enumerate(cells) if k in ("code", "late") and not b.text(before[i]).isspace()]
  ctx.check(len(seen) == len(work), "code is formatted, other cells are not")
  for s, st in seen:
    ctx.check(st == "some style", "the style is used")
    for ln in str.split(str.__str__(s), "\n"):
      ctx.check(not b.command(ln), "the formatter sees no command")
  changed = False
  for i, (c, was) in enumerate(zip(nb, before)):
    now = c["source"]
    if i not in work:
      ctx.cover("blank" if cells[i][0] == "code" else cells[i][0])
      ctx.check(b.same(now, was), "other cells are not altered")
      continue
    if fmt == "keep":
      ctx.cover("kept")
      ctx.check(b.same(now, was), "commands and code are kept")
    elif fmt == "change":
      changed = True
      ctx.cover("changed")
      ctx.check(b.same(now, was + "\nx = 1"), "the formatted code is kept with its commands")
    else:
      ctx.cover("rejected")
      if tag:
        ctx.cover("tagged")
        changed = True
        ls = str.split(str.__str__(now), "\n")
        ctx.check(b.same("\n".join(ls[:-1]), was) and ls[-1].startswith("# yapf") and "invalid syntax" in ls[-1], "the error is added to the code")
      else:
        ctx.check(b.same(now, was), "what cannot be formatted is kept")
  ctx.check(bool(r) == changed, "tells whether something changed")
  ctx.check(len(written) == int(changed and not dry) and touched == (changed and not dry), "written if changed, but not in a dry run")
  if written:
    ctx.check(written[0][0] is book and written[0][1] == path, "the notebook is written to its file")
  ctx.cover("written" if written else "not written")
  if dry:
    ctx.cover("dry run")
  if tag and fmt == "reject" and not dry:
    if more:
      for i in work:
        nb[i]["source"] = b.text(str.__str__(nb[i]["source"]) + "\n# note")
    n = [str.__str__(c["source"]) for c in nb]
    written.clear()
    d = tempfile.mkdtemp(prefix="c60_")
    try:
      path = os.path.join(d, "n.ipynb")
      with open(path, "w", encoding="utf-8") as f:
        f.write("as it was")
      r = m.format_nb(path, tag_errors=True)
    finally:
      shutil.rmtree(d)
    ctx.check(not r and not written and all(b.same(c["source"], v) for c, v in zip(nb, n)), "the error is added once")


def configs(tier):
  th = tier == "thorough"
  for n in range(8 if not th else 10):
    yield f"line {n}", line, dict(n=n)
  form = len(MARK + "!" + TAIL)
  for pre, mid in ((0, 0), (0, 1), (0, 3), (1, 0), (2, 2)) if not th else [(p, q) for p in range(4) for q in range(5)]:
    yield f"near {pre} {mid} mark", near, dict(pre=pre, mid=mid, cut=[len(MARK)])
    for c in range(0, form, 3 if not th else 1):
      yield f"near {pre} {mid} {c}", near, dict(pre=pre, mid=mid, cut=sorted({c, min(c + 1, form - 1)}))
  C = lambda *ns: ("code", list(ns))
  books = [[C(2)], [C(3, 1)], [C(1, 2), ("text", [2]), C(1)], [("ignored", [2]), C(2)], [("blank", [1, 1]), ("text", [1, 1])], [("late", [2])], []]
  if th:
    books += [[C(2, 2, 2)], [C(4)], [C(1), C(1), C(1)]]
  for i, cs in enumerate(books):
    for fmt in ("keep", "change", "reject"):
      for dry in (False, True):
        if dry and fmt == "reject":
          continue
        yield f"notebook {i} {fmt} {'dry' if dry else ''}", notebook, dict(cells=cs, fmt=fmt, dry=dry)
    for end in (False, True):
      yield f"notebook {i} tag {'end' if end else ''}", notebook, dict(cells=cs, fmt="reject", tag=True, end=end)
    if i < 3:
      yield f"notebook {i} tag and note", notebook, dict(cells=cs, fmt="reject", tag=True, more=True)
