"""text with symbolic characters: a str whose symbolic characters are private code points that stand for symbolic integers.

Python's own joins, slices and formatting move them around; what looks at their values is decided here, regular expressions from their own parse tree."""
import re

try:
  from symx.core import Unsupported
except ImportError:  # without the solver, for replays on the real code
  Unsupported = NotImplementedError

BASE = 0xF0000
_ranges = {}


def ranges(name, pred):
  """code points that satisfy a predicate, as ranges"""
  if name not in _ranges:
    out, lo = [], None
    for i in range(0x110001):
      ok = i < 0x110000 and pred(chr(i))
      if ok and lo is None:
        lo = i
      elif not ok and lo is not None:
        out.append((lo, i - 1))
        lo = None
    _ranges[name] = out
  return _ranges[name]


class Space:
  """the symbolic characters of one run"""

  def __init__(self, ctx):
    self.ctx, self.codes = ctx, {}
    space = self

    class Text(str):
      __hash__ = str.__hash__

      def __getitem__(self, i):
        return Text(str.__getitem__(self, i))

      def __iter__(self):
        return iter([Text(c) for c in str.__iter__(self)])

      def __add__(self, o):
        return Text(str.__add__(self, o))

      def __radd__(self, o):
        return Text(str(o).__add__(self))

      def __eq__(self, o):
        return space.equal(self, o)

      def __ne__(self, o):
        return not space.equal(self, o)

      def __contains__(self, o):
        return any(space.equal(str.__getitem__(self, slice(i, i + len(o))), o) for i in range(len(self) - len(o) + 1))

      def isspace(self):
        return len(self) > 0 and all(space.is_space(c) for c in str.__iter__(self))

      def startswith(self, p, *a):
        if a:
          raise Unsupported("str.startswith")
        return any(space.equal(str.__getitem__(self, slice(0, len(q))), q) for q in (p if isinstance(p, tuple) else (p,)))

      def endswith(self, p, *a):
        if a:
          raise Unsupported("str.endswith")
        return any(len(q) <= len(self) and space.equal(str.__getitem__(self, slice(len(self) - len(q), None)), q) for q in (p if isinstance(p, tuple) else (p,)))

      def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

      def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

      def _in(self, c, chars):
        return space.is_space(c) if chars is None else any(space.equal(c, d) for d in chars)

      def lstrip(self, chars=None):
        i = 0
        while i < len(self) and self._in(str.__getitem__(self, i), chars):
          i += 1
        return self[i:]

      def rstrip(self, chars=None):
        i = len(self)
        while i > 0 and self._in(str.__getitem__(self, i - 1), chars):
          i -= 1
        return self[:i]

      def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

      def splitlines(self, keepends=False):  # symbolic characters are not line ends
        return [Text(v) for v in str.splitlines(self, keepends)]

      def _find(self, sep, lo, hi, step):
        for i in range(lo, hi, step):
          if space.equal(str.__getitem__(self, slice(i, i + len(sep))), sep):
            return i
        return -1

      def find(self, sep, *a):
        if a:
          raise Unsupported("str.find")
        return self._find(sep, 0, len(self) - len(sep) + 1, 1)

      def rfind(self, sep, *a):
        if a:
          raise Unsupported("str.rfind")
        return self._find(sep, len(self) - len(sep), -1, -1)

      def split(self, sep=None, maxsplit=-1):
        if not sep:
          raise Unsupported("str.split")
        out, t = [], self
        while maxsplit < 0 or len(out) < maxsplit:
          i = t.find(sep)
          if i < 0:
            break
          out.append(t[:i])
          t = t[i + len(sep):]
        return out + [t]

      def rsplit(self, sep=None, maxsplit=-1):
        if not sep:
          raise Unsupported("str.rsplit")
        out, t = [], self
        while maxsplit < 0 or len(out) < maxsplit:
          i = t.rfind(sep)
          if i < 0:
            break
          out.insert(0, t[i + len(sep):])
          t = t[:i]
        return [t] + out

      def partition(self, sep):
        i = self.find(sep)
        return (self, Text(""), Text("")) if i < 0 else (self[:i], Text(sep), self[i + len(sep):])

      def rpartition(self, sep):
        i = self.rfind(sep)
        return (Text(""), Text(""), self) if i < 0 else (self[:i], Text(sep), self[i + len(sep):])

      def replace(self, old, new, count=-1):
        return Text(str.join(str(new), self.split(old, count)))

      def join(self, it):
        return Text(str.join(self, it))

      def __format__(self, spec):
        if spec:
          raise Unsupported("str.__format__")
        return str.__str__(self)

    def missing(name):

      def f(*_, **__):
        raise Unsupported("str." + name)

      return f

    for k in dir(str):
      if not k.startswith("_") and k not in vars(Text) and k not in ("encode",):
        setattr(Text, k, missing(k))
    self.Text = Text

  def char(self, code):
    c = chr(BASE + len(self.codes))
    self.codes[c] = code
    return c

  # decisions about one character
  def within(self, c, rs):
    if c not in self.codes:
      return any(a <= ord(c) <= b for a, b in rs)
    v = self.codes[c]
    return self.ctx.Or(*[v == a if a == b else self.ctx.And(v >= a, v <= b) for a, b in rs])

  def is_space(self, c):
    return bool(self.within(c, ranges("space", str.isspace)))

  def equal(self, a, b):
    if not isinstance(b, str) or len(a) != len(b):
      return False
    cond = []
    for p, q in zip(str.__iter__(a), str.__iter__(b)):
      if p == q:
        continue
      if p not in self.codes and q not in self.codes:
        return False
      cond.append((self.codes.get(p) if p in self.codes else ord(p)) == (self.codes.get(q) if q in self.codes else ord(q)))
    return not cond or bool(self.ctx.And(*cond))

  # regular expressions
  def pattern(self, p):
    return Pattern(self, p)


class Pattern:
  """a compiled regular expression, decided from its parse tree"""

  def __init__(self, space, p):
    self.space, self.real = space, p
    self.pattern, self.flags = p.pattern, p.flags
    self.dotall = bool(p.flags & re.DOTALL)
    if p.flags & (re.IGNORECASE | re.MULTILINE | re.ASCII | re.LOCALE):
      raise Unsupported("flags of a regular expression")
    import re._parser as parser
    self.tree = list(parser.parse(p.pattern, p.flags))

  def both(self, a, b):
    if a is False or b is False:
      return False
    return b if a is True else a if b is True else self.space.ctx.And(a, b)

  def either(self, a, b):
    if a is True or b is True:
      return True
    return b if a is False else a if b is False else self.space.ctx.Or(a, b)

  def one(self, op, av, c):
    """condition for one character"""
    sp, n = self.space, str(op)
    cond = lambda rs: sp.within(c, rs)
    neg = lambda x: (not x) if isinstance(x, bool) else sp.ctx.Not(x)
    if n == "LITERAL":
      return cond([(av, av)])
    if n == "NOT_LITERAL":
      return neg(cond([(av, av)]))
    if n == "ANY":
      return True if self.dotall else neg(cond([(10, 10)]))
    if n == "RANGE":
      return cond([av])
    if n == "CATEGORY":
      k = str(av)
      name = {"SPACE": r"\s", "DIGIT": r"\d", "WORD": r"\w"}.get(k.rsplit("_", 1)[-1])
      if name is None:
        raise Unsupported("category")
      x = cond(ranges(name, lambda ch: re.match(name, ch) is not None))
      return neg(x) if "NOT" in k else x
    if n == "IN":
      items = list(av)
      inv = bool(items) and str(items[0][0]) == "NEGATE"
      r = False
      for o, v in items[1:] if inv else items:
        r = self.either(r, self.one(o, v, c))
      return neg(r) if inv else r
    raise Unsupported("regular expression " + n)

  def seq(self, items, text, starts):
    """{end: condition} of a sequence"""
    cur = starts
    for op, av in items:
      n = str(op)
      nxt = {}

      def add(i, c):
        if c is not False:
          nxt[i] = self.either(nxt[i], c) if i in nxt else c  # pylint: disable=W0640

      if n in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, sub = av
        hi = min(int(hi), lo + len(text) + 1)
        state = cur
        for k in range(hi + 1):
          if k >= lo:
            for i, c in state.items():
              add(i, c)
          if not state or k == hi:
            break
          new = self.seq(list(sub), text, state)
          state = new if k < lo else {i: c for i, c in new.items() if i not in state or True}
          if k >= lo and set(new) <= set(cur) and len(text) == 0:
            break
      elif n == "SUBPATTERN":
        for i, c in self.seq(list(av[-1]), text, cur).items():
          add(i, c)
      elif n == "BRANCH":
        for b in av[1]:
          for i, c in self.seq(list(b), text, cur).items():
            add(i, c)
      elif n == "AT":
        k = str(av)
        for i, c in cur.items():
          if k in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            ok = i == 0
          elif k == "AT_END_STRING":
            ok = i == len(text)
          elif k == "AT_END":
            ok = i == len(text) or (i == len(text) - 1 and text[i] == "\n")
          else:
            raise Unsupported("regular expression " + k)
          if ok:
            add(i, c)
      else:
        for i, c in cur.items():
          if i < len(text):
            add(i + 1, self.both(c, self.one(op, av, text[i])))
      cur = nxt
    return cur

  def _match(self, s, whole):
    text = list(str.__iter__(s))
    ends = self.seq(self.tree, text, {0: True})
    r = False
    for i, c in ends.items():
      if not whole or i == len(text):
        r = self.either(r, c)
    return bool(r)

  def fullmatch(self, s):
    return self._match(s, True) or None

  def match(self, s):
    return self._match(s, False) or None

  def __getattr__(self, k):
    raise Unsupported("regular expression method " + k)
