"""C31 audio files load on a common scale"""
import types

from checks.C30 import make

GUI = True
BOUNDS = "1..2 samples (3 thorough), mono and 1..2 (3) channels; unsigned 8-bit, signed 16, 32 and 64-bit integers (24-bit files are read as 32-bit), 32 and 64-bit floating point; every sample value of the format (floating point: every finite value), every sample rate and every previous state; failed and cancelled loads"
OUTSIDE = "parsing of the file (scipy.io.wavfile.read is replaced by any array it can return); floating-point rounding"
ASSUMPTIONS = ["the root widget is a plain namespace holding the shared attributes", "the onset detector gives no onsets or any mask (C30)"]
COVERS = {"uint8", "int16", "int32", "int64", "float32", "float64", "mono", "channels", "cancelled", "failed"}


def dialogs(ctx, al, name):
  shown = []
  ctx.patch(al, "filedialog", types.SimpleNamespace(askopenfilename=lambda **kw: name))
  ctx.patch(al, "messagebox", types.SimpleNamespace(showerror=lambda *a, **k: shown.append(a)))
  return shown


def load(ctx, fmt, n, ch, before):
  al = ctx.mod("sample.widgets.audioload")
  np = ctx.np
  t, root = make(ctx, *((None,) * 4 if not before else (ctx.arr([0., 0., 0., 0.], float), 8000, 1, 3)))
  t.filedialog_dir, t.filedialog_file, t.filedialog_dir_save = "/", None, None
  shape = (n,) if ch is None else (n, ch)
  k = n * (ch or 1)
  if fmt.startswith("f"):
    v = ctx.reals("v", k)
    half, off = 1, 0
  else:
    bits = int(fmt.lstrip("uint"))
    half = 2**(bits - 1)
    off = half if fmt[0] == "u" else 0
    v = ctx.ints("v", k, off - half, off + half - 1)
  x = ctx.arr(v, getattr(np, fmt)).reshape(shape)
  sr = ctx.int("sr", 1)
  m = ctx.bools("onset", n)
  shown = dialogs(ctx, al, "/some/where/file.wav")
  reads = []

  def read(f, *a, **kw):
    reads.append(f)
    return sr, x
  ctx.patch(al, "wavfile", types.SimpleNamespace(read=read))
  ctx.patch(al.dsp, "onset_detection", lambda x_, *a, **kw: ctx.arr(list(m), bool))
  _, exc = ctx.raises(lambda: t.load_cbk(), ValueError, TypeError, ZeroDivisionError, OverflowError)
  ctx.check(exc is None and not shown, "the file is loaded")
  if exc is not None or shown:
    return
  ctx.check(reads == ["/some/where/file.wav"], "the chosen file is read")
  y = root.audio_x
  ctx.check(np.shape(y) == (n,), "one channel")
  if np.shape(y) != (n,):
    return
  ctx.check(y.dtype.kind == "f", "floating point")
  for i in range(n):
    w = v[i * (ch or 1):(i + 1) * (ch or 1)]
    s = sum(w[1:], w[0])
    want = (s / len(w) - off) / half
    if half > 2**31:  # 64-bit integers do not fit in a float: compare up to rounding
      ctx.eq(y[i], want, "sample on the full scale", tol=1e-9)
    else:
      ctx.eq(y[i], want, "sample on the full scale", tol=1e-9)
    if half > 1:
      ctx.check(ctx.And(y[i] >= -1, y[i] <= 1), "within -1 and 1")
  ctx.eq(root.audio_sr, sr, "sample rate of the file", tol=0)
  a, b = root.audio_trim_start, root.audio_trim_stop
  ctx.check(ctx.And(a >= 0, a < b, b <= n), "the trim region is a non-empty slice of the new audio")
  ctx.check(root.filedialog_file == "/some/where/file.wav" and root.filedialog_dir == "/some/where", "the file is remembered")
  ctx.cover(fmt)
  ctx.cover("mono" if ch is None else "channels")


def noload(ctx, fail):
  al = ctx.mod("sample.widgets.audioload")
  x = ctx.arr([0., 1.], float)
  t, root = make(ctx, x, 8000, 0, 2)
  shown = dialogs(ctx, al, "/d/f.wav" if fail else ctx.choice("name", ["", ()]))

  def read(f, *a, **kw):
    raise ctx.choice("error", [ValueError, OSError, EOFError, KeyError])("bad file")
  ctx.patch(al, "wavfile", types.SimpleNamespace(read=read))
  t.load_cbk()
  ctx.check(root.audio_x is x and (root.audio_sr, root.audio_trim_start, root.audio_trim_stop) == (8000, 0, 2), "the audio stays as it was")
  ctx.check(len(shown) == (1 if fail else 0), "an error is shown when the file cannot be read")
  ctx.cover("failed" if fail else "cancelled")


def configs(tier):
  th = tier == "thorough"
  for f in ("uint8", "int16", "int32", "int64", "float32", "float64"):
    for n in (1, 2, 3) if th else (1, 2):
      for ch in (None, 1, 2, 3) if th else (None, 1, 2):
        yield f"{f} n={n} channels={ch}", load, dict(fmt=f, n=n, ch=ch, before=n == 1)
  for fail in (True, False):
    yield f"fail={fail}", noload, dict(fail=fail)
