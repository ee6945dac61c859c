"""C47 the interface's files survive interrupted saves"""
import builtins
import io
import json
import logging
import multiprocessing
import os
import shutil
import tempfile
import types

import numpy

from checks import C32

GUI = True
BOUNDS = ("saving settings (JSON) or audio (pickle) 1..2 times (thorough: 3), interrupted or failing (disk full) before, in the middle of (2 truncation points) or after any writing of a file, renaming or removal, then starting "
          "again; whole settings tab: every setting at its default, one changed; theme saved: valid, unknown or none; audio of 1..3 samples, every trim region; the launcher: 1..3 launches, each ended by closing, reloading or dying")
OUTSIDE = "power losses that reorder file-system operations; files edited by hand; unwritable folders; real windows and processes (stand-ins)"
ASSUMPTIONS = ["a rename is atomic, a write is not", "the values saved are concrete (the schedule is what is symbolic)"]
COVERS = {"saved", "interrupted", "torn", "disk full", "nothing saved", "old", "new", "settings", "theme", "audio restored", "audio removed", "reload", "closed", "died"}


class Crash(BaseException):
  """the process ends here"""


class Disk:
  """files below a folder, with numbered points where the process may end or the disk may be full"""

  def __init__(self, ctx, folder):
    self.ctx, self.folder, self.at, self.n, self.kind, self.dead = ctx, folder, None, 0, None, False
    self.seen = set()
    for mod in (builtins, io):
      ctx.patch(mod, "open", self.wrap_open(mod.open))
    for name in ("replace", "rename", "remove", "unlink", "link"):
      ctx.patch(os, name, self.wrap(getattr(os, name), name))

  def arm(self, at, kind):
    self.at, self.n, self.kind, self.dead = at, 0, kind, False

  def restart(self):
    self.arm(None, None)

  def hit(self):
    if self.dead:
      raise Crash()
    if self.at is None:
      return False
    self.n += 1
    return bool(self.at == self.n)

  def die(self):
    if self.kind == "full":
      self.seen.add("disk full")
      raise OSError(28, "No space left on device")
    self.dead = True
    self.seen.add("interrupted")
    raise Crash()

  def mine(self, path):
    try:
      return os.path.abspath(os.fspath(path)).startswith(self.folder)
    except TypeError:
      return False

  def wrap(self, f, name):

    def g(*args, **kwargs):
      if not self.mine(args[0]):
        return f(*args, **kwargs)
      full = self.kind == "full"
      if not full and self.hit():
        self.die()
      r = f(*args, **kwargs)
      if not full and self.hit():
        self.die()
      return r
    g.__name__ = name
    return g

  def wrap_open(self, f):
    disk = self

    class File:
      """what is written reaches the disk in pieces"""

      def __init__(self, real):
        self._f, self._b = real, []

      def write(self, s):
        self._b.append(s)
        return len(s)

      def writelines(self, l):
        for s in l:
          self.write(s)

      def flush(self):
        b, self._b = self._b, []
        if not b:
          return
        if disk.dead:
          raise Crash()
        s = (bytes() if isinstance(b[0], (bytes, bytearray, memoryview)) else "").join(bytes(x) if isinstance(x, memoryview) else x for x in b)
        for k in (0, max(1, len(s) * 2 // 3)):
          if disk.hit():
            self._f.write(s[:k])
            self._f.flush()
            disk.seen.add("torn")
            disk.die()
        self._f.write(s)
        self._f.flush()
        if disk.kind != "full" and disk.hit():
          disk.die()

      def close(self):
        try:
          if not disk.dead:
            self.flush()
        finally:
          self._f.close()

      def __enter__(self):
        return self

      def __exit__(self, *exc):
        self.close()

      def __getattr__(self, k):
        return getattr(self._f, k)

    def g(file, mode="r", *args, **kwargs):
      if not self.mine(file) or not set(mode) & set("wax+"):
        return f(file, mode, *args, **kwargs)
      if self.hit():
        self.die()
      return File(f(file, mode, *args, **kwargs))
    return g


def folder(ctx):
  logging.disable(logging.CRITICAL)
  return tempfile.mkdtemp(prefix="c47_")


def clean(ctx, d):
  logging.disable(logging.NOTSET)
  ctx.undo()
  shutil.rmtree(d)


TOP = 24


def one(ctx, pickled, values, nested=False):
  """a single user file"""
  uf = ctx.mod("sample.widgets.userfiles")
  d = folder(ctx)
  try:
    disk = Disk(ctx, d)
    file = lambda: uf.UserDir(d + "/deep" if nested else d).user_file("file.ext")
    save = lambda f, v: f.save_pickled(v) if pickled else f.save_json(v, indent=2)
    load = lambda f: f.load_pickled() if pickled else f.load_json()
    ctx.check(file().is_valid() and not file().exists(), "nothing saved yet")
    ctx.check(not uf.UserDir(d).user_file("").is_valid() and not uf.UserDir("").user_file("x").is_valid() and not uf.UserDir(None).user_file("x").is_valid(), "no file without a name")
    was = None
    for i, v in enumerate(values):
      at = ctx.ints(f"at{i}_", 1, 0, TOP)[0]
      disk.arm(at, ctx.choice(f"kind{i}", ["end", "full"]))
      done = False
      try:
        save(file(), v)
        done = True
        disk.seen.add("saved")
      except Crash:
        pass
      except OSError as e:
        ctx.check(e.errno == 28, "only a full disk makes saving fail")
      disk.restart()
      ok = [v] if done else [was, v]
      if not file().exists():
        ctx.check(None in ok, "what was saved is still there")
        disk.seen.add("nothing saved")
        now = None
      else:
        now, exc = ctx.raises(lambda: load(file()), Exception)
        ctx.check(exc is None, "what was saved can be read")
        if exc is not None:
          return
        ctx.check(any(same(now, o) for o in ok), "what is read is what was saved before or after")
        disk.seen.add("new" if same(now, v) else "old")
      was = now
    if file().exists():
      file().delete()
      ctx.check(not file().exists(), "deleted")
    for c in disk.seen:
      ctx.cover(c)
  finally:
    clean(ctx, d)


def same(a, b):
  return json.dumps(a) == json.dumps(b)


def tab(ctx, saves, theme):
  """the settings tab, changed and started again"""
  st, uf = ctx.mod("sample.widgets.settings"), ctx.mod("sample.widgets.userfiles")
  d = folder(ctx)
  try:
    disk = Disk(ctx, d)
    C32.windows_stub(ctx, st)

    def start():
      t, root, var = C32.build(ctx, st, uf.UserDir(d).user_file("settings.json"))
      return t, root.sample_object_kwargs, var
    t, p, var = start()
    names = [k for k in p if k in ("max_n_modes", "sinusoidal__tracker__h")]
    for k in names:  # none of the defaults
      var[k].set("33")
    t.apply_cbk()
    was = dict(p, **{k: 33 for k in names})
    for i in range(saves):
      k = ctx.choice(f"what{i}", names)
      var[k].set(str(7 + i))
      if theme is not None:
        var["gui_theme"].set(theme)
      disk.arm(ctx.ints(f"at{i}_", 1, 0, TOP)[0], ctx.choice(f"kind{i}", ["end", "full"]))
      new = dict(was, **{k: 7 + i})
      ok = [was, new]
      try:
        t.apply_cbk()
        ok = [new]
        disk.seen.add("saved")
      except Crash:
        pass
      except OSError:
        pass
      disk.restart()
      r, exc = ctx.raises(start, Exception)
      ctx.check(exc is None, "the interface starts")
      if exc is not None:
        return
      t, p, var = r
      now = [o for o in ok if all(type(p[x]) is type(o[x]) and repr(p[x]) == repr(o[x]) for x in names)]
      ctx.check(bool(now), "it starts with the settings of before or after")
      if not now:
        return
      disk.seen |= {"settings", "new" if now[0] is new else "old"}
      was = now[0]
      g = uf.UserTtkTheme(uf.UserDir(d).user_file("settings.json")).get()
      ctx.check(g in uf.ttkthemes.THEMES or g == uf.UserTtkTheme.default(), "the theme is a valid one")
      if theme in uf.ttkthemes.THEMES and ok == [new]:
        ctx.check(g == theme, "the theme is the one saved")
      disk.seen.add("theme")
    for c in disk.seen:
      ctx.cover(c)
  finally:
    clean(ctx, d)


def reload(ctx, n, answer, before, part):
  """applying another theme, the interface starts again with the audio it had"""
  st, uf, main, al = map(ctx.mod, ("sample.widgets.settings", "sample.widgets.userfiles", "sample.widgets.main", "sample.widgets.audioload"))
  d = folder(ctx)
  try:
    disk = Disk(ctx, d)
    C32.windows_stub(ctx, st)
    home = uf.UserDir(d)
    if before:
      home.user_file("settings.json").save_json({"gui_theme": before})
    t, root, var = C32.build(ctx, st, home.user_file("settings.json"))
    x = [0.25 * (i + 1) for i in range(n)]
    a, b = (ctx.choice("start", [i for i in range(n)]), ctx.choice("stop", [i for i in range(1, n + 1)])) if n else (None, None)
    if n and a >= b:
      return
    root.audio_cache_file = home.user_file("audio.cache")
    if n:
      root.audio_x, root.audio_sr, root.audio_trim_start, root.audio_trim_stop = numpy.array(x), 22050, a, b
    asked, quits = [], []
    box = types.SimpleNamespace(askyesno=lambda *q, **k: asked.append(q) or answer, showwarning=lambda *q, **k: None)
    ctx.patch(st, "messagebox", box)
    root.quit = lambda: quits.append(1)
    other = next(o for o in ("arc", "radiance") if o != uf.UserTtkTheme(home.user_file("settings.json")).get())
    var["gui_theme"].set(other)
    disk.arm(ctx.ints("at", 1, 0, 30)[0] if part else None, "end")
    done = False
    try:
      t.apply_cbk()
      done = True
    except Crash:
      pass
    disk.restart()
    if done:
      ctx.check(len(asked) == 1, "asks before starting again")
      ctx.check(len(quits) == int(answer) and root.master.should_reload == answer, "starts again on request")
    cached = home.user_file("audio.cache").exists()
    if done and n:
      ctx.check(cached == answer, "the audio is kept for the next start")

    # next start
    got = {}
    root2 = types.SimpleNamespace(**{k: None for k in ("audio_x", "audio_sr", "audio_trim_start", "audio_trim_stop")})
    drawn = []

    class Anything:

      def __init__(self, *args, **kw):
        pass

      def __getattr__(self, k):
        if k.startswith("__"):
          raise AttributeError(k)
        return Anything()

      def __call__(self, *args, **kw):
        return Anything()

      def __getitem__(self, k):
        return Anything()

    class Themed:
      """main window"""

      def __init__(self, theme=None, **kw):
        got["theme"] = theme

      def __getattr__(self, k):
        if k.startswith("__"):
          raise AttributeError(k)
        return Anything()

    class Audio(al.AudioLoadTab):

      def _nametowidget(self, _):
        return root2

      def winfo_parent(self):
        return "."

      def update_plot(self, *args, **kw):
        drawn.append((self.audio_x, self.audio_sr, self.audio_trim_start, self.audio_trim_stop))

    def first(notebook, **kw):
      for k in ("persistent_dir", "settings_file", "audio_cache_file"):
        setattr(root2, k, getattr(notebook, k))
      return Audio(notebook, **kw)

    class Notebook(Anything):
      pass
    for mod in (al, main):
      ctx.patch(mod, "tk", Stub(mod.tk, Anything, Notebook))
    ctx.patch(al.pyplot, "PyplotFrame", Anything)
    ctx.patch(al.utils, "root_color", lambda *q, **k: None)
    if "_backend_tk" in vars(al):
      ctx.patch(al, "_backend_tk", Anything())
    for c in Audio.__mro__:
      if c.__module__ in ("tkinter.ttk", "tkinter") and "__init__" in c.__dict__:
        ctx.patch(c, "__init__", lambda *q, **k: None)
      if "responsive" in c.__dict__:
        ctx.patch(c, "responsive", lambda *q, **k: None)
    ctx.patch(main.SAMPLERoot, "__init__", Themed.__init__)
    for k in ("lift", "attributes", "focus_force"):
      ctx.patch(main.SAMPLEGUI, k, lambda *q, **kk: None)
    _, exc = ctx.raises(lambda: main.SAMPLEGUI(home, tabs=(("Load Audio", first, None),)), Exception)
    ctx.check(exc is None, "the interface starts again")
    if exc is not None:
      return
    now = uf.UserTtkTheme(home.user_file("settings.json")).get()
    ctx.check(got["theme"] == now and now in uf.ttkthemes.THEMES, "it has the theme of the settings")
    if done:
      ctx.check(now == other, "it has the theme chosen")
    state = (root2.audio_x, root2.audio_sr, root2.audio_trim_start, root2.audio_trim_stop)
    if n and done and answer:
      ctx.check(state[0] is not None and list(state[0]) == x and state[1:] == (22050, a, b), "the audio and its trim region are restored")
      ctx.check(len(drawn) == 1 and drawn[0][1:] == state[1:], "the audio is drawn")
      disk.seen.add("audio restored")
    elif state[0] is not None:
      ctx.check(bool(n) and list(state[0]) == x and state[1:] == (22050, a, b), "no other audio")
    ctx.check(not home.user_file("audio.cache").exists(), "the audio is restored only once")
    disk.seen.add("audio removed")
    for c in disk.seen:
      ctx.cover(c)
  finally:
    clean(ctx, d)


class Stub:
  """stand-in for the widget module: classes stay as they are, everything else accepts anything"""

  def __init__(self, mod, anything, notebook):
    self._m, self._a, self._n = mod, anything, notebook

  def __getattr__(self, k):
    if k == "Notebook":
      return self._n
    return self._a


def launcher(ctx, launches):
  """the launcher starts the interface again until it is closed"""
  gui, main = ctx.mod("sample.gui"), ctx.mod("sample.widgets.main")
  ends = [ctx.choice(f"end{i}", ["reload", "died", "closed"]) for i in range(launches - 1)] + ["closed"]
  started = []

  class Queue:

    def __init__(self):
      self.q = []

    def put(self, v):
      self.q.append(v)

    def get(self):
      if not self.q:
        raise RuntimeError("would wait forever")
      return self.q.pop(0)

    def empty(self):
      return not self.q

  class Over(Exception):
    pass

  class Process:

    def __init__(self, target=None, args=(), kwargs=None):
      self.args, self.kw = args, kwargs or {}

    def start(self):
      pass

    def join(self):
      if len(started) >= len(ends):
        raise Over()
      end = ends[len(started)]
      started.append(self.args[0].dir)
      ctx.cover("reload" if end == "reload" else end)
      q = self.kw["reload_queue"]
      if end == "died":
        return
      class Root:
        should_reload = end == "reload"
        reload_queue = q
      main.SAMPLERoot.on_closing(Root())
  killed = []
  ctx.patch(multiprocessing, "get_context", lambda *a: types.SimpleNamespace(SimpleQueue=Queue))
  ctx.patch(multiprocessing, "Process", Process)
  ctx.patch(os, "kill", lambda *a: killed.append(a))
  ctx.patch(main.utils, "get_root", lambda w: types.SimpleNamespace(destroy=lambda: None))
  ctx.patch(main.audio.TempAudio, "close_pygame", staticmethod(lambda: None))
  try:
    _, exc = ctx.raises(lambda: gui.run("--dir", "/nowhere", "-l", "CRITICAL"), Over, RuntimeError)
    ctx.check(exc is None, "the launcher stops when the interface is closed")
    want = 1 + next(i for i, e in enumerate(ends) if e == "closed")
    ctx.check(len(started) == want, "the interface is started until it is closed")
    ctx.check(all(s == "/nowhere" for s in started), "with its arguments")
  finally:
    ctx.undo()


def configs(tier):
  deep = tier != "quick"
  json_v = [{"a": 1, "b": [0.5, None], "c": "text", "d": True}, {"a": 2, "b": []}, {"z": "longer" * 5}]
  for pickled in (False, True):
    k = "pickle" if pickled else "json"
    for n in range(1, 4 if deep else 3):
      yield f"{k}, {n} saves", one, dict(pickled=pickled, values=json_v[:n])
    yield f"{k}, new folder", one, dict(pickled=pickled, values=json_v[:1], nested=True)
  for theme in (None, "arc", "no such theme"):
    yield f"settings, theme {theme}", tab, dict(saves=2 if theme is None and deep else 1, theme=theme)
  for n in (0, 1, 2, 3) if deep else (0, 2):
    for answer in (True, False):
      yield f"reload, {n} samples, {answer}", reload, dict(n=n, answer=answer, before="radiance" if n else None, part=False)
  yield "reload interrupted", reload, dict(n=1, answer=True, before="radiance", part=True)
  if deep:
    yield "reload interrupted, 2 samples", reload, dict(n=2, answer=True, before=None, part=True)
  for n in (1, 2, 3):
    yield f"launcher, {n}", launcher, dict(launches=n)
