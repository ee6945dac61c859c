"""C55 the tuning script optimises for the audio it generates"""
import os

BOUNDS = "1..3 generated sounds of 1..4 samples with every value, every resynthesised value in [-3, 3]; every number of initial and following iterations and seed; every subset of output files"
OUTSIDE = "the generator, the optimiser and the loss (checked by other properties; here stand-ins that record what they are given); drawing"
ASSUMPTIONS = ["the mean of the generated sounds is not silent"]
COVERS = {"saved", "not saved", "clipped", "not clipped", "image", "shown", "no seed"}
REL = "scripts/cim22/autotuning.py"


class Thing:
  def __init__(self, *a, **k):
    self.a, self.k = a, k


def tune(ctx, n, size, wav, image, progress=False, seed=True, order=False):
  m = ctx.script(REL)
  sounds = [ctx.reals(f"x{i}_", size, -1, 1) for i in range(n)]
  res = ctx.reals("y", size, -3, 3)
  ni, nm = ctx.int("initial", 1, 100), ctx.int("minimize", 0, 100)
  sd = ctx.int("seed", 0, 1000) if seed else None
  mean = [sum(s[j] for s in sounds) / n for j in range(size)]
  mag = [ctx.ite(v < 0, -v, v) for v in mean]
  peak = mag[0]
  for v in mag[1:]:
    peak = ctx.ite(v > peak, v, peak)
  ctx.assume(peak > .01)
  log = []
  made = {}

  class Generator(Thing):
    def __init__(self, *a, **k):
      super().__init__(*a, **k)
      made["generator"] = self

    def audio(self, *a, **k):
      made["audio"] = (a, k)
      return [(ctx.arr(s, float), "freqs", "amps") for s in sounds]

  class Model:
    def predict(self, t, **k):
      made["predict"] = (t, k)
      return ctx.arr(res, float)

  class Optimizer(Thing):
    def __init__(self, *a, **k):
      super().__init__(*a, **k)
      made["optimizer"] = self

    def gp_minimize(self, *a, **k):
      log.append("optimise")
      made["minimize"] = (a, k, [v for v in list(k.get("x", a[0] if a else None))])
      return Model(), "result"

  class Loss(Thing):
    def __init__(self, *a, **k):
      super().__init__(*a, **k)
      made["loss"] = self

  class Callback(Thing):
    def __init__(self, *a, **k):
      super().__init__(*a, **k)
      made["callback"] = self

  files = {}

  def write(path=None, rate=None, data=None, **k):
    path = k.get("filename", path)
    log.append("write " + path)
    files[path] = (rate, list(data))

  ctx.patch(m.random, "BeatsGenerator", Generator)
  ctx.patch(m.optimize, "SAMPLEOptimizer", Optimizer)
  ctx.patch(m.optimize, "TqdmCallback", Callback)
  ctx.patch(m.metrics, "CochleagramLoss", Loss)
  ctx.patch(m.wavfile, "write", write)
  import skopt.plots

  def plot(result, *a, **k):
    made["plot"] = result
    return []

  ctx.patch(skopt.plots, "plot_objective", plot)
  ctx.patch(m.plt, "savefig", lambda *a, **k: log.append(("image", k.get("fname", a[0] if a else None))))
  ctx.patch(m.plt, "show", lambda *a, **k: log.append("show"))
  ctx.patch(m.plt, "clf", lambda *a, **k: None)

  # the command line; placeholders stand for the symbolic numbers
  argv = ["--n-triplets", str(n), "--n-initial", "7001", "--n-minimize", "7002", "--seed", "7003" if seed else ""]
  argv += ["--wav", wav] if wav else []
  argv += ["--image-output", image] if image else []
  argv += ["--tqdm"] if progress else []
  if order:
    argv = [v for i in range(len(argv) - 2, -1, -2) for v in argv[i:i + 2]] if not progress else argv[-1:] + argv[:-1]
  given = {7001: ni, 7002: nm, 7003: sd}
  parse = m.ArgParser.parse_args

  def parse_args(self, *a, **k):
    a = parse(self, *a, **k)
    for k, v in list(vars(a).items()):
      if type(v) is int and v in given:
        setattr(a, k, given[v])
    return a

  ctx.patch(m.ArgParser, "parse_args", parse_args)
  ctx.patch(m.plt.style, "use", lambda style: made.update(style=style))
  _, e = ctx.raises(lambda: m.main(*argv), SystemExit)
  ctx.undo()
  ctx.check(os.path.isfile(made["style"]), "the style of the figures exists")
  # generated audio
  gk = made["generator"].k
  if seed:
    ctx.eq(gk.get("seed"), sd, "seed of the generator")
  else:
    ctx.check(gk.get("seed") is None, "no seed")
    ctx.cover("no seed")
  fs = made["audio"][1].get("fs")
  ctx.check(made["audio"][1].get("size") == n, "number of sounds")
  x = made["minimize"][2]
  ctx.check(len(x) == size, "length of the audio")
  for j in range(size):
    ctx.eq(x[j] * peak, mean[j], "the audio is the mean of the sounds, with peak one", tol=1e-6)
  ka = made["minimize"][1]
  ctx.check(ka.get("fs") == fs, "sampling frequency of the audio")
  ctx.eq(ka.get("n_calls"), ni + nm, "all iterations")
  ctx.eq(ka.get("n_initial_points"), ni, "initial iterations")
  if seed:
    ctx.eq(ka.get("random_state"), sd, "seed of the optimiser")
  ctx.check(ka.get("callback") is made["callback"], "progress is shown")
  ck = made["callback"].k
  ctx.check(ck.get("sample_opt") is made["optimizer"], "progress of this optimisation")
  ctx.eq(ck.get("n_calls"), ni + nm, "progress over all iterations")
  ctx.eq(ck.get("n_initial_points"), ni, "progress over initial iterations")
  ok = made["optimizer"].k
  ctx.check(ok.get("loss_fn") is made["loss"] and made["loss"].k.get("fs") == fs, "the loss is at the sampling frequency of the audio")
  fixed, space = ok.get("sample_kw", {}), {k: v for k, v in ok.items() if k not in ("sample_kw", "loss_fn")}
  ctx.check(space and not set(fixed) & set(space), "arguments are either fixed or optimised")
  # files
  if wav:
    b, ext = os.path.splitext(wav)
    ctx.check(set(files) == {wav, b + "_r" + ext}, "the audio and its resynthesis are saved")
    ctx.check(log.index("write " + wav) < log.index("optimise"), "the audio is saved before optimising")
    rate, data = files[wav]
    ctx.check(rate == fs and len(data) == size, "saved audio")
    for j in range(size):
      ctx.eq(data[j] * peak, mean[j], "the saved audio is the optimised one", tol=1e-6)
    rate, data = files[b + "_r" + ext]
    ctx.check(rate == fs and len(data) == size, "saved resynthesis")
    for j in range(size):
      w = 1. if bool(res[j] > 1) else -1. if bool(res[j] < -1) else res[j]
      ctx.cover("not clipped" if w is res[j] else "clipped")
      ctx.eq(data[j], w, "the saved resynthesis is clipped to full scale", tol=1e-9)
    t, pk = made["predict"]
    ctx.eq(t, ctx.arr([j / fs for j in range(size)], float), "the resynthesis lasts as long as the audio", tol=1e-9)
    ctx.cover("saved")
  else:
    ctx.check(not files, "nothing is saved unless requested")
    ctx.cover("not saved")
  ctx.check(made["plot"] == "result", "the optimisation is plotted")
  if image:
    ctx.check(("image", image) in log and "show" not in log, "the image is saved")
    ctx.cover("image")
  else:
    ctx.check("show" in log and not [v for v in log if isinstance(v, tuple)], "the image is shown")
    ctx.cover("shown")


def configs(tier):
  th = tier == "thorough"
  for n, size in ((1, 1), (1, 3), (2, 2), (3, 2)) + (((3, 4), (2, 5)) if th else ()):
    yield f"{n}x{size}", tune, dict(n=n, size=size, wav="dir.x/a.wav", image="i.png", progress=bool(n % 2))
  yield "no wav", tune, dict(n=2, size=2, wav=None, image=None)
  yield "no ext", tune, dict(n=1, size=2, wav="audio", image=None)
  yield "order", tune, dict(n=3, size=1, wav="b.wav", image="c.png", order=True)
  yield "no seed", tune, dict(n=1, size=2, wav="a.wav", image=None, seed=False)
