"""C52 notebook helpers show the given audio, timings and parameters"""
import re

BOUNDS = ("every pair of clock readings, scale and 0..3 decimals; audio of 1..3 samples with every value in [-3, 3], one or two channels; every combination of given and omitted label, number and audio; "
          "models with 0..2 parameters, nested once, documented or not")
OUTSIDE = "the browser (the page is checked as text); rounding of printed timings; longer audio"
ASSUMPTIONS = ["json.dumps writes the list it is given", "IPython's display shows what it is given"]
COVERS = {"timer", "title", "no title", "web mono", "web channels", "label", "number", "both", "audio", "clipped", "normalized", "nothing", "models", "documented", "nested"}


class Widget:
  def __init__(self, data=None, *a, **k):
    self.data, self.a, self.k = data, a, k


class Html(Widget):
  pass


class Sound(Widget):
  pass


def stage(ctx):
  m = ctx.mod("sample.ipython")
  shown = []
  ctx.patch(m.ipd, "HTML", Html)
  ctx.patch(m.ipd, "Audio", Sound)
  ctx.patch(m.ipd, "display", lambda *a, **k: shown.append((a, k)))
  return m, shown


def timer(ctx, title, nd, how):
  m, shown = stage(ctx)
  t0, dt = ctx.real("start", 0, 100), ctx.real("duration", 0, 100)
  used = []

  class Clock:
    now = t0

    def __getattr__(self, k):
      def f():
        used.append(k)
        return self.now
      return f

  clock = Clock()
  ctx.patch(m, "time", clock)
  kw = {}
  scale, unit = 1000, "ms"
  if how:
    scale, unit = ctx.real("scale", .01, 10), "x"
    kw = dict(scale=scale, unit=unit, msg="It took [{}]")
  with m.time_this(title, ndigits=nd, **kw) if title else m.time_this(ndigits=nd, **kw):
    ctx.check(not shown, "nothing is shown before the end")
    clock.now = t0 + dt
  ctx.undo()
  ctx.check(len(shown) == 1 and len(shown[0][0]) == 1, "the timing is shown once")
  text = str(shown[0][0][0].data)
  body = text[len(title):] if title and text.startswith(title) else text
  ctx.check(not title or text.startswith(title), "title first")
  mm = re.fullmatch(r"It took \[(\S+) x\]" if how else r"Execution time: (\S+) ms", body)
  ctx.check(mm is not None, "message with number and unit")
  if mm is None or not used:
    return
  ctx.shown(mm.group(1), dt * scale, "time between the start and the end")
  if not ctx.symbolic:
    ctx.check(len(mm.group(1).partition(".")[2]) == nd, "decimal places")
  ctx.cover("timer")
  ctx.cover("title" if title else "no title")


def web(ctx, shape):
  m = ctx.mod("sample.ipython")
  n = 1
  for s in shape:
    n *= s
  v = ctx.reals("x", n, -3, 3)
  x = ctx.arr(v, float).reshape(shape)
  got = []

  def dumps(o, *a, **k):
    got.append(o)
    return "<<AUDIO>>"

  ctx.patch(m.json, "dumps", dumps)
  w = m.WebAudio(x, ctx.choice("rate", [8000, 44100]), **({} if ctx.choice("label", [True, False]) else {"label": "Listen"}))
  ctx.undo()
  text = str(w.data)
  ctx.check(len(got) == 1, "the audio is written once")
  ch = 1 if len(shape) == 1 else shape[0]
  rows = list(got[0])
  ctx.check(len(rows) == ch, "one list per channel")
  for i, r in enumerate(rows):
    r = list(r)
    ctx.check(len(r) == n // ch, "every sample")
    for j, s in enumerate(r):
      ctx.same(s, v[i * (n // ch) + j], "sample")
  mm = re.findall(r"playAudio\(<<AUDIO>>, (\d+)\)[^>]*>([^<]*)<", text)
  ctx.check(len(mm) == 1, "a button plays the audio")
  if mm:
    ctx.check(mm[0][0] in ("8000", "44100") and mm[0][1] in ("Play", "Listen"), "rate and label")
  ctx.cover("web mono" if len(shape) == 1 else "web channels")


def web_args(ctx):
  """rate and label as given"""
  m = ctx.mod("sample.ipython")
  rate = ctx.choice("rate", [8000, 44100])
  label = ctx.choice("label", [None, "Listen"])
  ctx.patch(m.json, "dumps", lambda *a, **k: "<<AUDIO>>")
  w = m.WebAudio(ctx.arr([.5], float), rate, **({} if label is None else {"label": label}))
  ctx.undo()
  mm = re.findall(r"playAudio\(<<AUDIO>>, (\d+)\)[^>]*>([^<]*)<", str(w.data))
  ctx.check(len(mm) == 1, "a button plays the audio")
  if mm:
    ctx.check(mm[0] == (str(rate), label or "Play"), "rate and label as given")


def foreach(ctx, i, k, n, norm, extra):
  m, shown = stage(ctx)
  akw, hkw, dkw = {"rate": 8000}, {}, {}
  if norm is not None:
    akw["normalize"] = norm
  if extra:
    hkw, dkw = {"metadata": "h"}, {"display_id": "d"}
  f = m.LabelAndPlayForeach(**(dict(html_kws=hkw, display_kws=dkw) if extra else {}), audio_kws=akw)
  v = None if n is None else ctx.reals("y", n, -3, 3)
  y = None if n is None else ctx.arr(v, float)
  number = None if i is None else ctx.int("i", 0, 9)
  for again in (False, True):
    shown.clear()
    f(number, k, y) if not again else f(i=number, k=k, y=y)
    want = (i is not None or k is not None) + (n is not None)
    if not want:
      ctx.check(not shown, "nothing to show")
      ctx.cover("nothing")
      continue
    ctx.check(len(shown) == 1 and len(shown[0][0]) == want, "label and audio, if given")
    if len(shown) != 1 or len(shown[0][0]) != want:
      break
    ctx.check(shown[0][1] == dkw, "display arguments")
    ws = list(shown[0][0])
    if i is not None or k is not None:
      w = ws.pop(0)
      ctx.check(isinstance(w, Html) and w.k == hkw, "label first")
      mm = re.fullmatch(r"<h1>(.*)</h1>", str(w.data))
      ctx.check(mm is not None, "label is a heading")
      s = mm.group(1) if mm else ""
      if i is None:
        ctx.check(s == k, "label is the text")
        ctx.cover("label")
      else:
        num, _, rest = s.partition(" - ")
        ctx.check(rest == (k or ""), "label has the text")
        if num == "<sym>":
          ctx.cover("number")
        else:
          ctx.shown(num, number + 1, "labels count from one")
        ctx.cover("both" if k else "number")
    if n is not None:
      w = ws.pop(0)
      ctx.check(isinstance(w, Sound) and w.k.get("rate") == 8000 and w.k.get("normalize") is bool(norm), "audio player with its arguments")
      d = w.data if w.data is not None else w.k.get("data")
      ctx.check(len(d) == n, "every sample")
      for j in range(n):
        if norm:
          ctx.same(d[j], v[j], "audio that will be normalized is left as it is")
          ctx.cover("normalized")
        else:
          ctx.same(d[j], ctx.ite(v[j] > 1, 1, ctx.ite(v[j] < -1, -1, v[j])), "audio is clipped to full scale")
          ctx.cover("clipped")
        ctx.same(y[j], v[j], "the audio given is not modified")
      ctx.cover("audio")
  ctx.undo()
  ctx.check(akw == ({"rate": 8000} if norm is None else {"rate": 8000, "normalize": norm}), "arguments given are not modified")


def model(names, docs, nested, inner_docs):
  class Inner:
    def get_params(self, deep=True):
      del deep
      return {"depth": 3, "alpha": 1}

  Inner.__doc__ = "Inner model\n\n    Args:\n      depth (int): Depth of\n        the inner model\n      alpha (float): Inner alpha" if inner_docs else None

  class Model:
    def get_params(self, deep=True):
      del deep
      r = {}
      for n in names:
        r[n] = Inner() if n == nested else .5
        if n == nested:
          r.update({n + "__depth": 3, n + "__alpha": 1})
      return r

  Model.__doc__ = "Outer model\n\n    Args:\n" + "\n".join(f"      {n} (float): The {n}\n        parameter" for n in docs)
  return Model()


def models(ctx):
  m = ctx.mod("sample.ipython")
  names = ctx.choice("names", [(), ("alpha",), ("alpha", "alphabet"), ("beta", "alpha")])
  docs = [n for n in names if ctx.choice("documented", [True, False])]
  nested = ctx.choice("nested", [None, *names])
  inner = ctx.choice("inner", [True, False])
  text = str(m.CollapsibleModelParams(model(names, docs, nested, inner)).data)
  body = text[text.rindex("</style>") if "</style>" in text else 0:]
  tags = re.findall(r'<button type="button" class="collapsible">\s*(.*?)\s*</button>|<div class="noncollapsible">\s*(.*?)\s*</div>', body, flags=re.S)
  got = [(bool(a), (a or b)) for a, b in tags]
  want = [(True, "Model")]
  for n in names:
    want.append((n == nested, f"{n} (float): The {n} parameter" if n in docs else n))
    if n == nested:
      want += [(False, "depth (int): Depth of the inner model" if inner else "depth"), (False, "alpha (float): Inner alpha" if inner else "alpha")]
      ctx.cover("nested")
  if docs:
    ctx.cover("documented")
  ctx.check(got == want, f"every parameter once, with its description")
  ctx.check(body.count("<div") == body.count("</div>") and body.count("<button") == body.count("</button>"), "sections are closed")
  ctx.cover("models")


def configs(tier):
  for title in (None, "<h1>Title</h1>"):
    for nd in (0, 1, 3):
      for how in (False, True):
        yield f"timer {title is not None} {nd} {how}", timer, dict(title=title, nd=nd, how=how)
  for shape in ((1,), (3,), (1, 2), (2, 1), (2, 2)) + (((2, 3), (5,)) if tier == "thorough" else ()):
    yield f"web {shape}", web, dict(shape=list(shape))
  yield "web arguments", web_args, {}
  for i in (None, 1):
    for k in (None, "", "tone"):
      for n, norm in ((None, None), (1, None), (2, False), (2, True)):
        yield f"foreach {i} {k} {n} {norm}", foreach, dict(i=i, k=k, n=n, norm=norm, extra=norm is not None)
  yield "models", models, {}
