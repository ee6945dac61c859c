"""C20 optional storage"""
BOUNDS = "every sequence of 3 (4 thorough) operations among append, store at index 0..2, call, reset, enabling and disabling, over two names; every value; enabled or not at the start"
OUTSIDE = "longer sequences, larger and negative indices"
COVERS = {"enabled", "disabled", "reset", "gap", "deep copy"}


def history(ctx, n, save, first):
  learn = ctx.mod("sample.utils.learn")
  s = learn.OptionalStorage(save=save)
  model = {}
  on = save
  ops = [("append", k, None) for k in "ab"] + [("index", k, i) for k in "ab" for i in range(3)] + ["reset", "toggle", "call"]
  for j in range(n):
    op = ops[first] if j == 0 and first is not None else ctx.choice(f"op{j}", ops)
    if op == "reset":
      s.reset()
      model = {}
      ctx.cover("reset")
      ctx.check(not s.get_state(), "reset forgets everything")
      continue
    if op == "toggle":
      on = not on
      s.set_params(save=on)
      continue
    v = ctx.real(f"v{j}")
    if op == "call":
      r = s("a", v)
      kind, k, i = "append", "a", None
    else:
      kind, k, i = op
      r = s.append(k, v) if i is None else s.append(k, v, index=i)
    ctx.check(r is v, "the value is returned")
    ctx.cover("enabled" if on else "disabled")
    if on:
      l = model.setdefault(k, [])
      if kind == "append":
        l.append(v)
      else:
        while len(l) <= i:
          l.append(None)
        if len(l) > 1 and l[i - 1] is None:
          ctx.cover("gap")
        l[i] = v
    compare(ctx, s, model)
  compare(ctx, s, model)
  st = s.get_state()
  for k, l in st.items():
    l.append("more")
  st["other"] = 1
  ctx.cover("deep copy")
  compare(ctx, s, model)
  # values held are copied too
  if on:
    box = {"x": 1}
    s.append("box", box)
    c = s.get_state()["box"][-1]
    ctx.check(c == box and c is not box, "a copy of the state is independent of the values stored")
    ctx.check(s["box"][-1] is box, "the value itself is stored")


def compare(ctx, s, model):
  st = s.get_state(deepcopy=False)
  ctx.check(set(st) == set(model), "names stored")
  for k, l in model.items():
    got = st[k]
    ctx.check(len(got) == len(l), f"number of values stored ({k})")
    for u, v in zip(got, l):
      ctx.check(u is v if v is None or u is None else u == v, f"values stored ({k})")
    for u, v in zip(s[k], l):
      ctx.check(u is v if v is None or u is None else u == v, f"values retrieved ({k})")
  if not model:
    _, e = ctx.raises(lambda: s["a"], KeyError)
    ctx.check(e is not None, "nothing to retrieve")


def configs(tier):
  n = 3 if tier != "thorough" else 4
  return [(f"{'on' if sv else 'off'}{f}", history, dict(n=n, save=sv, first=f)) for sv in (True, False) for f in range(11)]
