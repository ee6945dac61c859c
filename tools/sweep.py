#!/usr/bin/env python3
"""tools/sweep.py FILE CHECK[,CHECK...] [FUNC-regex] [--par N] [--log F]: mutation sweep of one source file (development aid).

Every small syntactic mutation of FILE is applied in a scratch copy and the checks are run until one reports it; survivors are printed."""
import ast, concurrent.futures as cf, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/repo")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*", ast.LShift: ">>", ast.MatMult: "*"}
NAMES = {"max": "min", "min": "max", "maximum": "minimum", "minimum": "maximum", "ceil": "floor", "floor": "ceil", "add": "subtract", "subtract": "add", "greater": "greater_equal", "greater_equal": "greater", "less": "less_equal",
         "logical_and": "logical_or", "mean": "median", "argmax": "argmin", "argmin": "argmax", "sin": "cos", "cos": "sin", "any": "all", "all": "any", "multiply": "true_divide", "true_divide": "multiply", "log10": "log2", "log2": "log10", "zeros": "ones",
         "square": "abs", "abs": "square", "real": "imag", "imag": "real", "a0": "a1", "a1": "a0", "start": "stop", "sum": "max", "flip": "asarray", "reversed": "list", "sqrt": "abs", "exp": "abs"}

def mutants(src, rx):
  tree = ast.parse(src)
  lines = src.split("\n")
  offs = [0]
  for l in lines: offs.append(offs[-1] + len(l.encode()) + 1)
  b = src.encode()
  P = lambda ln, c: offs[ln - 1] + c
  seg = lambda n: (P(n.lineno, n.col_offset), P(n.end_lineno, n.end_col_offset))
  txt = lambda n: b[slice(*seg(n))].decode()
  out = []
  def add(s, e, new, what): out.append((s, e, new, what))
  def walk(n, fn):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      name = (fn + "." if fn else "") + n.name
      body = n.body
      if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str): body = body[1:]
      if isinstance(n, ast.FunctionDef):
        for d in n.args.defaults + n.args.kw_defaults if "--defaults" in sys.argv else ():
          if d is not None: walk(d, name)
      for c in body: walk(c, name)
      return
    if fn and re.search(rx, fn):
      w = fn
      if isinstance(n, ast.Compare) and len(n.ops) == 1:
        l, r = n.left, n.comparators[0]
        s, e = seg(l)[1], seg(r)[0]
        mid = b[s:e].decode()
        if not re.search(r"[()#]", mid): add(s, e, " %s " % CMP[type(n.ops[0])], w)
      if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        s, e = seg(n.left)[1], seg(n.right)[0]
        mid = b[s:e].decode()
        m = re.sub(r"(\*\*|//|<<|[-+*/%@])", lambda _: BIN[type(n.op)], mid, 1)
        if m != mid: add(s, e, m, w)
      if isinstance(n, ast.Constant):
        v = n.value
        if v is True: add(*seg(n), "False", w)
        elif v is False: add(*seg(n), "True", w)
        elif isinstance(v, int): add(*seg(n), str(v + 1), w)
        elif isinstance(v, float): add(*seg(n), "(%s * 1.05 + 0.01)" % txt(n), w)
      if isinstance(n, ast.BoolOp):
        for x, y in zip(n.values, n.values[1:]):
          s, e = seg(x)[1], seg(y)[0]
          mid = b[s:e].decode()
          m = mid.replace("and", "\0").replace("or", "and").replace("\0", "or")
          if m != mid: add(s, e, m, w)
      if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not (isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and n.operand.value == 1):
        add(*seg(n), "(" + txt(n.operand) + ")", w)
      if isinstance(n, ast.Attribute) and n.attr in NAMES:
        s, e = seg(n); add(e - len(n.attr), e, NAMES[n.attr], w)
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in NAMES: add(*seg(n.func), NAMES[n.func.id], w)
      if isinstance(n, (ast.If, ast.While)): add(*seg(n.test), "not (" + txt(n.test) + ")", w)
      if isinstance(n, ast.IfExp): add(*seg(n), "(" + txt(n.body) + ")", w); add(*seg(n), "(" + txt(n.orelse) + ")", w)
      if isinstance(n, ast.Call):
        for k in n.keywords:
          if k.arg:
            s, e = seg(k)
            m = re.match(rb"\s*,\s*", b[e:])
            if m: add(s, e + m.end(), "", w + ": drop " + k.arg)
            else:
              m = re.search(rb",\s*$", b[:s])
              if m: add(m.start(), e, "", w + ": drop " + k.arg)
        if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and txt(n.args[0]) != txt(n.args[1]):
          add(seg(n.args[0])[0], seg(n.args[1])[1], txt(n.args[1]) + ", " + txt(n.args[0]), w + ": swap")
      if isinstance(n, ast.Slice):
        if n.lower: add(*seg(n.lower), "", w + ": slice")
        if n.upper: add(*seg(n.upper), "", w + ": slice")
      if isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets)) or isinstance(n, (ast.Continue, ast.Break)):
        t = txt(n)
        if not re.match(r"(logging|logger|warnings)\.", t): add(*seg(n), "pass", w + ": delete")
      if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2: pass
    if isinstance(n, ast.Raise): return
    if isinstance(n, ast.JoinedStr): return
    if isinstance(n, ast.Expr) and re.match(r"(logging|logger|warnings)\.", txt(n)): return
    if isinstance(n, ast.AnnAssign):
      if n.value: walk(n.value, fn)
      return
    for c in ast.iter_child_nodes(n):
      if isinstance(c, ast.arguments): continue
      walk(c, fn)
  for c in tree.body: walk(c, "")
  seen = set()
  for s, e, new, w in out:
    m = (b[:s] + new.encode() + b[e:]).decode()
    if m in seen or m == src: continue
    try: ast.parse(m)
    except SyntaxError: continue
    seen.add(m)
    ln = b[:s].count(b"\n") + 1
    yield ln, w, m

def main():
  a = [x for x in sys.argv[1:] if not x.startswith("--")]
  par = int(next((x.split("=")[1] for x in sys.argv if x.startswith("--par=")), 4))
  every = int(next((x.split("=")[1] for x in sys.argv if x.startswith("--every=")), 1))
  fn, checks = a[0], a[1].split(",")
  rx = a[2] if len(a) > 2 else "."
  src = open(SRC + "/" + fn).read()
  ms = list(mutants(src, rx))[::every]
  print(len(ms), "mutants of", fn, flush=True)
  dirs = []
  top = tempfile.mkdtemp(prefix="sweep")
  import queue
  q = queue.Queue()
  for i in range(par):
    d = top + "/r%d" % i
    shutil.copytree(SRC, d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git", "notebooks", "docs"))
    q.put(d)
  def one(t):
    ln, w, m = t
    d = q.get()
    try:
      with open(d + "/" + fn, "w") as f: f.write(m)
      got = []
      for c in checks:
        try:
          r = subprocess.run(["./check", c], cwd=ROOT, env=dict(os.environ, SYMX_REPO=d, SYMX_JOBS=os.environ.get("SYMX_JOBS", "2"), SYMX_DEADLINE="200", SYMX_EVIDENCE=d), capture_output=True, text=True, timeout=400)
          rc = r.returncode
        except subprocess.TimeoutExpired: rc = "T"
        if rc == 1: return ln, w, m, c, None
        got.append("%s:%s" % (c, rc))
      return ln, w, m, None, got
    finally:
      with open(d + "/" + fn, "w") as f: f.write(src)
      q.put(d)
  L = src.split("\n")
  caught = 0
  try:
    with cf.ThreadPoolExecutor(par) as ex:
      for ln, w, m, c, got in ex.map(one, ms):
        if c: caught += 1; continue
        M = m.split("\n")
        i = next(i for i, (x, y) in enumerate(zip(L, M)) if x != y)
        print("SURVIVES", fn, i + 1, w, "|", L[i].strip(), "=>", M[i].strip(), "|", " ".join(got), flush=True)
  finally:
    shutil.rmtree(top)
  print("caught", caught, "of", len(ms), flush=True)
main()
