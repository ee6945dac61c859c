"""a Tcl interpreter without display: the widgets are those of tkinter, and the checks act on them as a user does"""
import re
import sys
import tkinter
import types
import _tkinter
from tkinter import ttk

sys.unraisablehook = lambda *a: None  # finalisers of widgets


class App:
  """what _tkinter.create returns"""

  def __init__(self):
    self.vars, self.traces, self.commands = {}, {}, {}
    self.options, self.bindings, self.grids, self.kinds = {}, {}, {}, {}
    self.afters, self.protocols, self.tabs, self.gone, self.quits, self.errors = [], {}, {}, [], 0, []

  # variables
  def setvar(self, name, value):
    self.vars[str(name)] = value
    for mode, cb in list(self.traces.get(str(name), ())):
      if "write" in mode:
        self._run(cb, str(name), "", "write")

  globalsetvar = setvar

  def _run(self, cb, *a):
    """errors of callbacks do not reach who caused them (tkinter reports them)"""
    return self.commands[cb](*a)

  def getvar(self, name):
    if name == "tk_version":
      return _tkinter.TK_VERSION
    if name == "tcl_version":
      return _tkinter.TCL_VERSION
    if str(name) not in self.vars:
      raise tkinter.TclError(f"can't read \"{name}\"")
    return self.vars[str(name)]

  globalgetvar = getvar

  def unsetvar(self, name):
    self.vars.pop(str(name), None)

  globalunsetvar = unsetvar

  # conversions
  def getint(self, v):
    return int(v)

  def getdouble(self, v):
    return float(v)

  def getboolean(self, v):
    if isinstance(v, str):
      if v.lower() in ("1", "true", "yes", "on"):
        return True
      if v.lower() in ("0", "false", "no", "off"):
        return False
      raise tkinter.TclError(f"expected boolean value but got \"{v}\"")
    return bool(v)

  def splitlist(self, v):
    return tuple(v.split()) if isinstance(v, str) else tuple(v)

  def wantobjects(self, *a):
    return True

  def createcommand(self, name, f):
    self.commands[name] = f

  def deletecommand(self, name):
    self.commands.pop(name, None)

  def interpaddr(self):
    return 0

  def eval(self, script):
    return ""

  def evalfile(self, f):
    return ""

  def quit(self):
    self.quits += 1

  def mainloop(self, *a):
    pass

  def loadtk(self):
    pass

  def call(self, *args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
      args = tuple(args[0])
    args = tuple(str(a) if isinstance(a, (_tkinter.Tcl_Obj, tkinter.Misc, tkinter.Variable)) else a for a in args)
    head, rest = args[0], args[1:]
    if head == "info":
      return str(rest[1]) in self.vars
    if head == "trace":
      if rest[0] == "add":
        cb = rest[4]
        self.traces.setdefault(str(rest[2]), []).append((rest[3] if isinstance(rest[3], str) else " ".join(rest[3]), cb[0] if isinstance(cb, tuple) else cb))
      elif rest[0] == "remove":
        cb = rest[4]
        cb = cb[0] if isinstance(cb, tuple) else cb
        t = self.traces.get(str(rest[2]), [])
        t[:] = [v for v in t if v[1] != cb]
      elif rest[0] == "variable":
        self.traces.setdefault(str(rest[1]), []).append(({"w": "write", "r": "read", "u": "unset"}.get(rest[2], rest[2]), rest[3][0] if isinstance(rest[3], tuple) else rest[3]))
      return ""
    if head == "bind":
      if len(rest) == 3:
        d = self.bindings.setdefault((rest[0], rest[1]), [])
        s = rest[2]
        if s.startswith("+"):
          s = s[1:]
        else:
          d.clear()
        d.append(s)
      return ""
    if head == "winfo":
      if rest[0] == "parent":
        return rest[1].rpartition(".")[0] or "."
      if rest[0] == "children":
        p = rest[1] if rest[1] != "." else ""
        return tuple(k for k in self.kinds if k.rpartition(".")[0] == p and k not in self.gone)
      if rest[0] == "exists":
        return rest[1] == "." or rest[1] in self.kinds and rest[1] not in self.gone
      return "0"
    if head == "grid" or head == "pack":
      if rest and rest[0] == "configure":
        self.grids[rest[1]] = dict(zip([k[1:] for k in rest[2::2]], rest[3::2]))
      return ""
    if head == "after":
      if len(rest) > 1:
        self.afters.append((rest[0], rest[1]))
        return f"after#{len(self.afters)}"
      return ""
    if head == "wm":
      if rest[0] == "protocol" and len(rest) > 3:
        self.protocols[rest[2]] = rest[3]
      return ""
    if head == "destroy":
      self.gone += [k for k in self.kinds if k == rest[0] or k.startswith(rest[0] + ".") or rest[0] == "."]
      return ""
    if head == "image":
      return rest[2] if len(rest) > 2 else ""
    if isinstance(head, str) and head.startswith("."):  # command of a widget
      if rest and rest[0] in ("configure", "config"):
        self._set(head, rest[1:])
      elif rest and rest[0] == "cget":
        return self.options.get(head, {}).get(rest[1].lstrip("-"), "")
      elif rest and rest[0] == "add":
        self.tabs.setdefault(head, []).append((rest[1], dict(zip([k.lstrip("-") for k in rest[2::2]], rest[3::2])).get("text")))
      elif rest and rest[0] == "create":
        return 1
      elif rest and rest[0] == "invoke":
        self.press(head)
      return ""
    if len(rest) and isinstance(rest[0], str) and rest[0].startswith("."):  # a new widget
      self.kinds[rest[0]] = head
      self._set(rest[0], rest[1:])
      return rest[0]
    return ""

  def _set(self, w, o):
    if len(o) == 1 and isinstance(o[0], (tuple, list)):
      o = o[0]
    self.options.setdefault(w, {}).update(zip([str(k).lstrip("-") for k in o[0::2]], o[1::2]))

  # the user
  def event(self, w, *names):
    """run the scripts bound to an event (by any of its names)"""
    for n in names:
      for s in list(self.bindings.get((str(w), n), ())):
        for m in re.finditer(r"\[(\S+) ([^\]]*)\]", s):
          sub = ["0"] * len(m.group(2).split())
          if len(sub) == 19:
            sub[14] = str(w)
            sub[13] = "4"
          self.commands[m.group(1)](*sub)

  def press(self, w):
    """click a button"""
    w = str(w)
    self.event(w, "<Button-1>", "<ButtonPress-1>", "<1>", "<Button>", "<ButtonPress>")
    self.event(w, "<ButtonRelease-1>", "<ButtonRelease>")
    o = self.options.get(w, {})
    if o.get("variable") is not None and "checkbutton" in self.kinds.get(w, "").lower():
      n = str(o["variable"])
      self.setvar(n, not self.getboolean(self.vars.get(n, False)))
    c = o.get("command")
    if c:
      self.commands[c]() if isinstance(c, str) else c()

  def type(self, w, text):
    """type a text in an entry"""
    v = self.options.get(str(w), {}).get("textvariable") or self.options.get(str(w), {}).get("variable")
    if v is not None:
      self.setvar(str(v), text)

  def shows(self, w):
    v = self.options.get(str(w), {}).get("textvariable") or self.options.get(str(w), {}).get("variable")
    return None if v is None else self.vars.get(str(v))

  def find(self, text, kind="button", inside="."):
    """widgets with a given text"""
    return [w for w, k in self.kinds.items() if kind in k.lower() and self.options.get(w, {}).get("text") == text
            and (inside == "." or w.startswith(inside + ".")) and w not in self.gone]

  def beside(self, label):
    """the first control on the right of a label in its grid"""
    g = self.grids.get(label, {})
    p = label.rpartition(".")[0]
    c = [(h["column"], w) for w, h in self.grids.items() if w.rpartition(".")[0] == p and h.get("row", 0) == g.get("row", 0)
         and h.get("column", 0) > g.get("column", 0) and "label" not in self.kinds[w].lower() and "frame" not in self.kinds[w].lower() and w not in self.gone]
    return min(c)[1] if c else None


def install(ctx, axes, style=""):
  """replace the display: returns the list of interpreters created"""
  apps = []

  def create(*a, **k):
    apps.append(App())
    return apps[-1]

  ctx.patch(_tkinter, "create", create)
  ctx.patch(tkinter, "_default_root", None)
  ctx.patch(tkinter.Tk, "readprofile", lambda *a, **k: None)
  ctx.patch(ttk.Style, "lookup", lambda *a, **k: style)
  from matplotlib.backends import _backend_tk, backend_tkagg
  ctx.patch(_backend_tk.ToolTip, "createToolTip", staticmethod(lambda *a, **k: None))

  class Canvas:
    def __init__(self, figure=None, master=None, **k):
      self.figure, self.handlers = figure, {}
      self.widget = tkinter.Canvas(master)
      figure.canvas_made = self

    def draw(self):
      pass

    draw_idle = draw

    def get_tk_widget(self):
      return self.widget

    def mpl_connect(self, name, f):
      self.handlers.setdefault(name, []).append(f)
      return len(self.handlers)

    def fire(self, name, ev):
      for f in list(self.handlers.get(name, ())):
        f(ev)

  class Toolbar(tkinter.Frame):
    def __init__(self, canvas, window=None, pack_toolbar=True):
      super().__init__(master=window)
      self._buttons = {k: tkinter.Checkbutton(self, text=k) if k in ("Pan", "Zoom") else tkinter.Button(self, text=k) for k in ("Home", "Pan", "Zoom", "Save")}
      for k in ("Pan", "Zoom"):
        v = tkinter.IntVar(self)
        self._buttons[k].config(variable=v)
        self._buttons[k].var = v

    def update(self):
      pass

  class Figure:
    def __init__(self, *a, **k):
      self.axes = []

    def add_axes(self, *a, **k):
      self.axes.append(axes())
      return self.axes[-1]

    def set_facecolor(self, *a, **k):
      pass

  ctx.patch(backend_tkagg, "FigureCanvasTkAgg", Canvas)
  ctx.patch(backend_tkagg, "NavigationToolbar2Tk", Toolbar)
  return apps, types.SimpleNamespace(Figure=Figure, Canvas=Canvas)
