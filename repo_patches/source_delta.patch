From e8e9f2e0ef6b3881710d362e7406bd6f8e306a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 01/46] fix: number of windows is zero, not negative, for
 inputs shorter than a window

---
 sample/utils/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ae93ee5..ab909e1 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -381,7 +381,7 @@ def n_windows(input_size: int, wsize: int, hop: Optional[int] = None) -> int:
     int: Number of windows"""
   if hop is None:
     hop = wsize
-  return 1 + (input_size - wsize) // hop
+  return max(0, 1 + (input_size - wsize) // hop)
 
 
 def overlapping_windows(a: np.ndarray,
-- 
2.43.0


From b54f785b3d12a4427e1e4a99d9e4d730a8785f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 02/46] fix: DFT of frames with a one-sample window

---
 sample/sms/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sms/dsp.py b/sample/sms/dsp.py
index 7e28d9a..df511d7 100644
--- a/sample/sms/dsp.py
+++ b/sample/sms/dsp.py
@@ -29,7 +29,7 @@ def dft(
   xw = x * w
   x_z = np.zeros(n)
   x_z[:w.size - hw] = xw[hw:]
-  x_z[-hw:] = xw[:hw]
+  x_z[n - hw:] = xw[:hw]
 
   x_fft = fft.rfft(x_z)
   ax = np.abs(x_fft)
-- 
2.43.0


From 7a515e77dda0a4604153d893c032b78109834088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:00 +0000
Subject: [PATCH 03/46] fix: exporting SDT parameters of a model with no modes

---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index 9125851..90282b6 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -275,7 +275,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
         "fragmentSize": 1.0,
         "freqs": self.freqs_[m_ord].tolist(),
         "decays": self.decays_[m_ord].tolist(),
-        "weights": np.full(n_modes, 1 / n_modes).tolist(),
+        "weights": np.full(n_modes, 1 / max(1, n_modes)).tolist(),
         "gains": [self.amps_[m_ord].tolist()],
     }
 
-- 
2.43.0


From 26bf2977c8f549a9f3efe02191b182810e8cc36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 04/46] fix: predict with unspecified or list phases

---
 sample/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index 90282b6..5f5ebc2 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -307,8 +307,9 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
       else:
         n_modes = self.max_n_modes
     m_ord = self.mode_argsort_(order=order, reverse=reverse)[:n_modes]
-    if "phases" in kwargs and not isinstance(kwargs["phases"], str):
-      kwargs["phases"] = kwargs["phases"][m_ord]
+    phases = kwargs.get("phases")
+    if phases is not None and not isinstance(phases, str):
+      kwargs["phases"] = np.asarray(phases)[m_ord]
     return additive_synth(x, self.freqs_[m_ord], self.decays_[m_ord],
                           self.amps_[m_ord], **kwargs)
 
-- 
2.43.0


From 3c6a35368918e1545f7c46253b5e974fe52b3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:46 +0000
Subject: [PATCH 05/46] fix: A-weighting in decibel in the output buffer

---
 sample/psycho.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index a660c9b..2851a83 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -375,7 +375,9 @@ def a_weighting(f: float,
   Returns:
     array: A-weights"""
   if db:
-    return dsp_utils.a2db(a_weighting(f, db=False, out=out)) - _a_weight_1kHz_db
+    a_weighting(f, db=False, out=out)
+    dsp_utils.a2db(out, out=out)
+    return np.subtract(out, _a_weight_1kHz_db, out=out)
   f2 = np.empty_like(out)
   np.square(f, out=f2)
   # f^2 + 107.7^2
-- 
2.43.0


From d930e320a517bee2b4da58e09cc41d6429c50679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 06/46] fix: strided cochleagram with one-sample impulse
 responses

---
 sample/psycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 2851a83..74fd034 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -840,7 +840,7 @@ class GammatoneFilterbank:
       else:
         # Zero-padding for full-convolution
         x_pad = np.zeros(x.size + 2 * (self._ir_size - 1), dtype=x.dtype)
-        x_pad[(self._ir_size - 1):-(self._ir_size - 1)] = x
+        x_pad[(self._ir_size - 1):(self._ir_size - 1 + x.size)] = x
         # Output delay (quantized to stride)
         offsets_s = self.offsets // stride
         # Input delay (quantization residual)
-- 
2.43.0


From 19ce5b84a8ccd619e06d76796869797d5a3faaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 07/46] fix: last samples of the strided cochleagram of delayed
 filters

---
 sample/psycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 74fd034..a2dd27d 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -850,7 +850,8 @@ class GammatoneFilterbank:
         # Starting index
         x_begins = self._ir_size - ir_sizes - offsets_x
         # Input lengths
-        x_sizes = np.minimum(x_pad.size - x_begins, x.size + 2 * (ir_sizes - 1))
+        x_sizes = np.minimum(x_pad.size - x_begins,
+                             x.size + 2 * (ir_sizes - 1) + offsets_x)
         # Output lengths
         n_wins = np.array([
             dsp_utils.n_windows(x_size, ir_size, hop=stride)
-- 
2.43.0


From bf5326b254f686ca8c5b8516c57b70cecbe35593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:31 +0000
Subject: [PATCH 08/46] fix: automatic trim of audio with no onsets

---
 sample/widgets/audioload.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 62348c2..60976ab 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -179,6 +179,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
     """Automatically trim audio via onset detection"""
     onsets = np.flatnonzero(dsp.onset_detection(self.audio_x))
     logging.debug("Onsets: %s", onsets)
+    if not onsets.size:
+      onsets = np.zeros(1, dtype=int)  # no onsets, keep all audio
     onsets = np.array([*onsets, self.audio_x.size])
     onset_max_i = np.argmax(np.diff(onsets)).flatten()[0]
     self.audio_trim_stop = onsets[onset_max_i + 1]
-- 
2.43.0


From b921b0d5040236f7e7a504ae3a74e1457d222147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:31 +0000
Subject: [PATCH 09/46] fix: mouse released outside of the audio plot left a
 pending trim

---
 sample/widgets/audioload.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 60976ab..876b070 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -226,7 +226,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       if self.toolbar_on:
         logging.debug("Press aborted: toolbar on")
         self._trim_side = None
-      elif self.audio_loaded and self._trim_side is None:
+      elif self.audio_loaded and self._trim_side is None \
+          and event.xdata is not None:
         x_i = int(event.xdata * self.audio_sr)
         self._trim_side = \
           abs(x_i - self.audio_trim_start) < abs(x_i - self.audio_trim_stop)
@@ -239,13 +240,14 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         logging.debug("Release aborted: toolbar on")
         self._trim_side = None
       elif self.audio_loaded and self._trim_side is not None:
-        self.set_trim(
-            event.xdata,
-            start=self._trim_side,
-            samples=False,
-            update=True,
-            update_vars=True,
-        )
+        if event.xdata is not None:  # released inside the axes
+          self.set_trim(
+              event.xdata,
+              start=self._trim_side,
+              samples=False,
+              update=True,
+              update_vars=True,
+          )
         self._trim_side = None
 
   def update_plot(self, update_vars: bool = True):
-- 
2.43.0


From 51e8fba93dcdebf6918dd68a97693fbc81890a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:49 +0000
Subject: [PATCH 10/46] fix: loading of unsigned 8-bit and floating-point audio
 files

---
 sample/widgets/audioload.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 876b070..aff3bdf 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -166,7 +166,10 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
             type(e).__name__,
             str(e) or "".join((type(e).__name__, "\n", "Filename: ", filename)))
       else:
-        x = x / -np.iinfo(x.dtype).min
+        if x.dtype.kind == "u":  # unsigned integers are offset by half scale
+          x = x / (np.iinfo(x.dtype).max // 2 + 1) - 1
+        elif x.dtype.kind == "i":
+          x = x / -np.iinfo(x.dtype).min
         if np.ndim(x) > 1:
           x = np.mean(x, axis=-1)
         self.audio_x = x
-- 
2.43.0


From 1705cafbbc5340dcebde320fa6200763fc96440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:42 +0000
Subject: [PATCH 11/46] fix: nan and infinity typed in integer settings

---
 sample/widgets/settings.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 1a124e5..f6bc52e 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -123,10 +123,9 @@ def custom_positive_int(x: str, dflt: Optional[int] = 1) -> int:
   Returns:
     int: Integer value"""
   try:
-    x = float(x)
-  except ValueError:
+    return int(max(float(x), 1))
+  except (ValueError, OverflowError):
     return dflt
-  return int(max(x, 1))
 
 
 def next_power_of_2(x: str) -> int:
-- 
2.43.0


From 450b98379a486f95d0e49b6f4acdc5a05c9b7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:42 +0000
Subject: [PATCH 12/46] fix: nan and infinity typed as strip time

---
 sample/widgets/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index f6bc52e..c07b1a8 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -63,13 +63,13 @@ def strip_time_parse(x: str) -> Optional[float]:
   Args:
     x (str): Input number encoded as string
   Returns:
-    float or None: If the string encodes a positive float, then that
+    float or None: If the string encodes a positive (finite) float, then that
     float is returned, else :data:`None`"""
   try:
     x = float(x)
   except ValueError:
     return None
-  if x <= 0:
+  if not 0 < x < float("inf"):
     return None
   return x
 
-- 
2.43.0


From b05679738201675f4243df32d5ae449a2c30e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:01 +0000
Subject: [PATCH 13/46] fix: default window size in settings could be longer
 than the FFT

---
 sample/widgets/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index c07b1a8..3f1c2eb 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -182,7 +182,7 @@ def postprocess_windows(sinusoidal__n: int, wsize: int,
       w = signal.get_window(window=wtype, Nx=wsize)
     except ValueError:
       if wsize < 1:
-        wsize = 4096
+        wsize = min(4096, sinusoidal__n)
       else:
         wtype = "blackman"
       continue
-- 
2.43.0


From 1c840021c57892512326b20d390e178bd71ef428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:18 +0000
Subject: [PATCH 14/46] fix: deprecated arguments sine_tracker_cls and
 safe_sine_len raised

---
 sample/sms/sm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index bc0b6cd..693d5ed 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -204,7 +204,7 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("min_sine_dur", "tracker__min_sine_dur")
   @utils.deprecated_argument(
       "safe_sine_len",
-      convert=lambda _, **kwargs:
+      convert=lambda *_, **kwargs:
       ("tracker__min_sine_dur",
        max(-1 if kwargs["safe_sine_len"] is None else kwargs["safe_sine_len"],
            kwargs.get("tracker__min_sine_dur", 1))),
@@ -213,8 +213,8 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("freq_dev_offset", "tracker__freq_dev_offset")
   @utils.deprecated_argument("freq_dev_slope", "tracker__freq_dev_slope")
   @utils.deprecated_argument("sine_tracker_cls",
-                             convert=lambda sine_tracker_cls, **kwargs:
-                             ("tracker", sine_tracker_cls()))
+                             convert=lambda *_, **kwargs:
+                             ("tracker", kwargs["sine_tracker_cls"]()))
   @utils.deprecated_argument("save_intermediate", "intermediate__save")
   @utils.deprecated_argument("fs", "tracker__fs")
   @utils.deprecated_argument("h", "tracker__h")
-- 
2.43.0


From b025dc76aa4b80019fa2f2c41c1fae670f4aff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 15/46] fix: deprecated argument sample_fn of the optimizer
 raised

---
 sample/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 9205450..5ddb285 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -94,8 +94,8 @@ class SAMPLEOptimizer:
       "sample_fn",
       convert=lambda _, **kwargs:
       ("model", kwargs["sample_fn"]
-       (**kwargs.get("remap", sample_kwargs_remapper)({} if kwargs.get(
-           "sample_kw", None) is None else kwargs.get("sample_kw", None)))),
+       (**kwargs.get("remap", sample_kwargs_remapper)
+        (**utils.default_kws(kwargs.get("sample_kw"))))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   @utils.deprecated_argument(
-- 
2.43.0


From 45acc031812e4ba7a7b5b4fb79a29a1f01c5100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:33 +0000
Subject: [PATCH 16/46] fix: optimizer dimensions were ignored without a
 remapper

With remap=None, SAMPLEOptimizer._kwargs returned only the additional
keyword arguments, so that the optimized parameters never reached the model
---
 sample/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 5ddb285..ad4c282 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -139,8 +139,9 @@ class SAMPLEOptimizer:
     if len(args) != len(self.dimensions):
       raise ValueError(f"Expected {len(self.dimensions)} "
                        f"positional arguments, got {len(args)}")
+    kwargs = dict(**dict(zip(self.dimensions, args)), **kwargs)
     if self.remap is not None:
-      kwargs = self.remap(**dict(zip(self.dimensions, args)), **kwargs)
+      kwargs = self.remap(**kwargs)
     return kwargs
 
   def loss(self, x: np.ndarray, fs: float) -> Callable[..., float]:
-- 
2.43.0


From 462167f93c5f76bed98b6f0fbee04cf1ae085681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:08 +0000
Subject: [PATCH 17/46] fix: gammatone envelope was NaN long before the onset

For times well before -t_c the exponential overflows, and its product with
the zero of the step function is NaN
---
 sample/psycho.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/psycho.py b/sample/psycho.py
index a2dd27d..29a4cd3 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -604,6 +604,8 @@ class GammatoneFilter:
     np.add(t, t_c, out=t_)
     # u(t + t_c)
     np.greater_equal(t_, 0, out=out)
+    # Before the onset the exponential could overflow (0 * inf is nan)
+    np.maximum(t_, 0, out=t_)
     # u(t + t_c) * (t + t_c)^(n-1)
     np.power(t_, n - 1, out=tmp)
     np.multiply(tmp, out, out=out)
-- 
2.43.0


From 41319c9eea4f24207db252948bfe372bf79cc406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 18/46] fix: gammatone impulse responses raised for integer
 time axes

---
 sample/psycho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 29a4cd3..18be613 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -598,9 +598,9 @@ class GammatoneFilter:
 
     Returns:
       array: The IR envelope function evaluated at :data:`t`"""
-    tmp = np.empty_like(t)
+    tmp = np.empty_like(t, dtype=float)
     # t + t_c
-    t_ = np.empty_like(t)
+    t_ = np.empty_like(t, dtype=float)
     np.add(t, t_c, out=t_)
     # u(t + t_c)
     np.greater_equal(t_, 0, out=out)
-- 
2.43.0


From bad15c434edcff4ebc96b0579f8e4d990d365874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:23 +0000
Subject: [PATCH 19/46] fix: beat decisions of a previous fit stayed in the
 storage

---
 sample/beatsdrop/sample.py | 4 ++++
 sample/sample.py           | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/sample/beatsdrop/sample.py b/sample/beatsdrop/sample.py
index ea21542..fdcb7b3 100644
--- a/sample/beatsdrop/sample.py
+++ b/sample/beatsdrop/sample.py
@@ -82,6 +82,10 @@ class SAMPLEBeatsDROP(sample.sample.SAMPLE):
     """Beat decision model"""
     return bd.decision.AlmostNotABeatDecisor()
 
+  def _reset_intermediate(self):
+    super()._reset_intermediate()
+    self.beat_decisor.intermediate.reset()
+
   _PARAM_MATRIX_NROWS: int = 4
 
   def _fit_track(self, i: int, t: np.ndarray,
diff --git a/sample/sample.py b/sample/sample.py
index 5f5ebc2..f4284a3 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -153,6 +153,10 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
     """Call both :func:`_preprocess_track` and :func:`_fit_track`"""
     return self._fit_track(*self._preprocess_track(i=i, x=x, t=t))
 
+  def _reset_intermediate(self):
+    """Forget the intermediate results of previous fits. Those of the
+    sinusoidal model are reset by the sinusoidal model itself"""
+
   _PARAM_MATRIX_NROWS: int = 3
 
   @utils.warnings_simplefilter(action="ignore",
@@ -173,6 +177,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
     for k, v in kwargs.items():
       (sample_kwargs if k in self.get_params() else ctx_kwargs)[k] = v
     self.set_params(**sample_kwargs)
+    self._reset_intermediate()
 
     with sample._training.sample_training_context(self, **kwargs) as fit_args:  # pylint: disable=W0212
       # Process frames
-- 
2.43.0


From 45ed252a65171e793a11a46eaf932c8f657b828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:12 +0000
Subject: [PATCH 20/46] fix: length of first-order gammatone impulse responses

---
 sample/psycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 18be613..8c969e3 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -532,7 +532,8 @@ class GammatoneFilter:
     p = dsp_utils.db2a(floor) * self.envelope(hi)
     e = None
     if initial_range is None:
-      initial_range = 2 * (hi + self.t_c)
+      # The peak of first-order filters is at the onset
+      initial_range = 2 * (hi + self.t_c) if self.n > 1 else 1 / self.bandwidth
 
     def _foo(t):
       return self.envelope(t) - p
-- 
2.43.0


From 09c0268eafd8b958460e62f186688765c90d6c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:05 +0000
Subject: [PATCH 21/46] fix: plotting a failed analysis in the GUI raised

---
 sample/widgets/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index 1589d74..b1a8df4 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -224,7 +224,8 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
       except Exception as e:  # pylint: disable=W0703
         messagebox.showerror(type(e).__name__, str(e))
         logging.error("Error while fitting", exc_info=True)
-      finally:
+        self.audio_resynth_x = None
+      else:
         self.audio_resynth_x = None
         self.update_plot()
 
-- 
2.43.0


From 5027f3137a06bd2179bd7420eed5180b877ed54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:20 +0000
Subject: [PATCH 22/46] fix: plotting analyses with no frames raised

---
 sample/plots.py            | 8 +++++---
 sample/widgets/analysis.py | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index d72d872..eef44ac 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -48,10 +48,12 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   reverse = getattr(m.tracker, "reverse", False)
   if reverse:
     if m.intermediate.save:
-      tmax = len(m.intermediate["stft"]) * m.h / m.fs
+      stft = m.intermediate.get_state(deepcopy=False).get("stft", ())
+      tmax = len(stft) * m.h / m.fs
     else:
-      tmax = max((track["start_frame"] + track["freq"].size) * m.h / m.fs
-                 for track in m.tracks_)
+      tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
+                  for track in m.tracks_),
+                 default=0)
   for i, track in enumerate(m.tracks_):
     t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
     if reverse:
diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index b1a8df4..54bc2b1 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -131,10 +131,12 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
     for ax in self.ax:
       ax.clear()
     m = self.sample_object.sinusoidal
-    stft = np.array([mx for mx, _ in m.intermediate["stft"]]).T
+    # there are no frames if the audio is shorter than a window
+    frames = m.intermediate.get_state(deepcopy=False).get("stft", ())
+    stft = np.array([mx for mx, _ in frames]).T if frames else np.zeros((1, 1))
     if m.tracker.reverse:
       stft = np.fliplr(stft)
-    tmax = len(m.intermediate["stft"]) * m.h / m.fs
+    tmax = len(frames) * m.h / m.fs
 
     plots.sine_tracking_2d(self.sample_object, ax=self.ax)
 
-- 
2.43.0


From d0501f948c1dd52843244b32b2e181d3cf4a7ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:27 +0000
Subject: [PATCH 23/46] fix: resynthesis of previous audio was played and
 exported at the sample rate of newly loaded audio

---
 sample/widgets/audioload.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index aff3bdf..4645bb9 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -174,6 +174,7 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
           x = np.mean(x, axis=-1)
         self.audio_x = x
         self.audio_sr = sr
+        self.audio_resynth_x = None  # may be at another sample rate
         self.auto_trim()
         self._plt_lims_valid = False
         self.update_plot()
-- 
2.43.0


From eab32f846734061dfb6da8bc13839f8c0b133a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:53 +0000
Subject: [PATCH 24/46] fix: 3D plot of tracks of a reversed analysis was
 mirrored in time

---
 sample/plots.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index eef44ac..0d914f4 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -29,6 +29,22 @@ def _is_beat(m: SAMPLE, track_i: int):
       "decision"][track_i]
 
 
+def _reverse_tmax(m: sm.SinusoidalModel) -> Optional[float]:
+  """Helper function to get the time about which the tracks are mirrored
+
+  Returns:
+    float: The duration of the analysis if it has been done in reverse,
+      otherwise :data:`None`"""
+  if not getattr(m.tracker, "reverse", False):
+    return None
+  if m.intermediate.save:
+    stft = m.intermediate.get_state(deepcopy=False).get("stft", ())
+    return len(stft) * m.h / m.fs
+  return max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
+              for track in m.tracks_),
+             default=0)
+
+
 def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   """Plot sinusoidal tracks detected by the model on two axes,
   one for frequency and one for magnitude
@@ -44,19 +60,10 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   m = s.sinusoidal if isinstance(s, SAMPLE) else s
   if ax is None:
     _, ax = plt.subplots(1, 2, sharex=True)
-  tmax = 0
-  reverse = getattr(m.tracker, "reverse", False)
-  if reverse:
-    if m.intermediate.save:
-      stft = m.intermediate.get_state(deepcopy=False).get("stft", ())
-      tmax = len(stft) * m.h / m.fs
-    else:
-      tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
-                  for track in m.tracks_),
-                 default=0)
+  tmax = _reverse_tmax(m)
   for i, track in enumerate(m.tracks_):
     t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
-    if reverse:
+    if tmax is not None:
       t_x = tmax - t_x
     b = _is_beat(s, i)
     ax[0].plot(t_x, track["freq"], "--" if b else "-", **kwargs)
@@ -88,8 +95,11 @@ def sine_tracking_3d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None):
   m = s.sinusoidal if isinstance(s, SAMPLE) else s
   if ax is None:
     ax = plt.axes(projection="3d")
+  tmax = _reverse_tmax(m)
   for i, track in enumerate(m.tracks_):
     t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
+    if tmax is not None:
+      t_x = tmax - t_x
     ax.plot(t_x, track["freq"], track["mag"], "--" if _is_beat(s, i) else "-")
 
   ax.set_xlabel("time (s)")
-- 
2.43.0


From 0980be74637afa1e6edacc6a5cb2a1e9229753ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:57 +0000
Subject: [PATCH 25/46] fix: comparing a single beat regression model raised

---
 sample/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/plots.py b/sample/plots.py
index 0d914f4..663702a 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -301,7 +301,7 @@ def beatsdrop_comparison(
     shape = 3, len(beatsdrops)
     if transpose:
       shape = reversed(shape)
-    axs = fig.subplots(*shape, sharex=True)
+    axs = fig.subplots(*shape, sharex=True, squeeze=False)
     if transpose:
       axs = axs.T
   else:
-- 
2.43.0


From ff48f0578e9081446bfcc8f4c01b0c896deed69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 26/46] fix: results of additional test cases were not saved

---
 scripts/beatsdrop/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 6fcf8e9..f611348 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -532,7 +532,7 @@ def save_dataframe(args: argparse.Namespace):
   logger.debug("Args: %s", args)
   args.df = list2df(args.results, args.fieldnames)
   if args.csv_path is not None and (args.csv_path != args.last_file or
-                                    not args.resume):
+                                    not args.resume or len(args.seeds) > 0):
     logger.info("Writing CSV file: '%s'", args.csv_path)
     args.df.to_csv(args.csv_path)
   # Clean checkpoints
-- 
2.43.0


From 21d7e00d293e3a0e905c4f2098c09bb43c21ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 27/46] fix: interrupted writing of results or checkpoints
 corrupted resumed evaluations

---
 scripts/beatsdrop/evaluation.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index f611348..140ffe3 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -399,6 +399,18 @@ def list2df(results: List[BeatsDROPEvalResult], fieldnames) -> "pd.DataFrame":
   return pd.DataFrame(data=data)
 
 
+def write_csv(df: "pd.DataFrame", path: str):
+  """Write a CSV file. If interrupted, it does not leave an incomplete file
+
+  Args:
+    df (DataFrame): Data
+    path (str): Path of the CSV file"""
+  head, tail = os.path.split(path)
+  tmp = os.path.join(head, f".{tail}")
+  df.to_csv(tmp)
+  os.replace(tmp, path)
+
+
 def prepare_folders(args: argparse.Namespace):
   """Prepare folders for output, WAV and log files
 
@@ -516,7 +528,7 @@ def run_tests(args: argparse.Namespace):
             it.set_description(f"Checkpoint: '{args.last_file}'")
           else:
             logger.info("Writing checkpoint: '%s'", args.last_file)
-          list2df(args.results, args.fieldnames).to_csv(args.last_file)
+          write_csv(list2df(args.results, args.fieldnames), args.last_file)
   return args
 
 
@@ -534,7 +546,7 @@ def save_dataframe(args: argparse.Namespace):
   if args.csv_path is not None and (args.csv_path != args.last_file or
                                     not args.resume or len(args.seeds) > 0):
     logger.info("Writing CSV file: '%s'", args.csv_path)
-    args.df.to_csv(args.csv_path)
+    write_csv(args.df, args.csv_path)
   # Clean checkpoints
   if args.ckpt_path is not None:
     for fn in glob.glob(args.ckpt_path("*")):
-- 
2.43.0


From 8cd82d7b067864fb0c6e7ed48110f329cdd7d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 28/46] fix: checkpoints of evaluations without resuming were
 superseded by old ones

---
 scripts/beatsdrop/evaluation.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 140ffe3..2f983e4 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -456,17 +456,18 @@ def load_results(args: argparse.Namespace):
   if args.output is not None:
     args.csv_path = f"{args.output}.csv"
     args.ckpt_path = f"{args.output}.ckpt-{{}}".format
+    # Find most recent checkpoint
+    for fn in glob.glob(args.ckpt_path("*")):
+      try:
+        pd.read_csv(fn)
+      except Exception:  # pylint: disable=W0703
+        continue
+      args.checkpoints.append(fn)
+    if len(args.checkpoints) > 0:
+      args.last_checkpoint = max(
+          map(lambda s: int(s.rsplit("-", 1)[-1]), args.checkpoints))
     if args.resume:
-      # Find most recent checkpoint
-      for fn in glob.glob(args.ckpt_path("*")):
-        try:
-          pd.read_csv(fn)
-        except Exception:  # pylint: disable=W0703
-          continue
-        args.checkpoints.append(fn)
       if len(args.checkpoints) > 0:
-        args.last_checkpoint = max(
-            map(lambda s: int(s.rsplit("-", 1)[-1]), args.checkpoints))
         args.last_file = args.ckpt_path(args.last_checkpoint)
       elif os.path.exists(args.csv_path):
         args.last_file = args.csv_path
-- 
2.43.0


From 2baa1a466ed41b0975efb9d83ac706645c102ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:51 +0000
Subject: [PATCH 29/46] fix: checkpoints were lost with special characters in
 the output path or when interrupted while deleting them

---
 scripts/beatsdrop/evaluation.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 2f983e4..eb908fb 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -411,6 +411,18 @@ def write_csv(df: "pd.DataFrame", path: str):
   os.replace(tmp, path)
 
 
+def find_checkpoints(output: str) -> List[str]:
+  """Find checkpoint files, from the least recent to the most recent
+
+  Args:
+    output (str): Output base path for results
+
+  Returns:
+    list of str: Paths of the checkpoint files"""
+  return sorted(glob.glob(f"{glob.escape(output)}.ckpt-*"),
+                key=lambda fn: (len(fn), fn))
+
+
 def prepare_folders(args: argparse.Namespace):
   """Prepare folders for output, WAV and log files
 
@@ -455,9 +467,9 @@ def load_results(args: argparse.Namespace):
   args.checkpoints = []
   if args.output is not None:
     args.csv_path = f"{args.output}.csv"
-    args.ckpt_path = f"{args.output}.ckpt-{{}}".format
+    args.ckpt_path = functools.partial("{}.ckpt-{}".format, args.output)
     # Find most recent checkpoint
-    for fn in glob.glob(args.ckpt_path("*")):
+    for fn in find_checkpoints(args.output):
       try:
         pd.read_csv(fn)
       except Exception:  # pylint: disable=W0703
@@ -550,7 +562,7 @@ def save_dataframe(args: argparse.Namespace):
     write_csv(args.df, args.csv_path)
   # Clean checkpoints
   if args.ckpt_path is not None:
-    for fn in glob.glob(args.ckpt_path("*")):
+    for fn in find_checkpoints(args.output):
       logger.debug("Deleting checkpoint: '%s'", fn)
       os.remove(fn)
   return args
-- 
2.43.0


From a0e2e8d882449595e2d715abee67dc90a6477133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:22 +0000
Subject: [PATCH 30/46] fix: evaluation failed with output paths in the current
 folder

---
 scripts/beatsdrop/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index eb908fb..0da377e 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -435,7 +435,7 @@ def prepare_folders(args: argparse.Namespace):
   logger.debug("Args: %s", args)
   # Make output file folder
   if args.output is not None:
-    os.makedirs(os.path.dirname(args.output), exist_ok=True)
+    os.makedirs(os.path.dirname(os.path.abspath(args.output)), exist_ok=True)
   # Make WAV folder
   if args.wav is None:
     args.wav_path = None
-- 
2.43.0


From 02099d1c401ec3f5f666c0448ead5d21ba4425c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:09 +0000
Subject: [PATCH 31/46] fix: interrupted writing of benchmark results lost the
 previous ones

---
 scripts/cim22/performance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/cim22/performance.py b/scripts/cim22/performance.py
index 6aaec13..2734d79 100644
--- a/scripts/cim22/performance.py
+++ b/scripts/cim22/performance.py
@@ -361,7 +361,11 @@ def main(*argv):
     data = clean_data(data, args)
     df = pd.DataFrame(data=data)
     if args.output is not None:
-      df.to_csv(args.output)
+      # If interrupted while writing, keep the previous results
+      head, tail = os.path.split(args.output)
+      tmp = os.path.join(head, f".{tail}")
+      df.to_csv(tmp)
+      os.replace(tmp, args.output)
 
   log_speedup_imshow(compute_speedup(df, args))
 
-- 
2.43.0


From db0b404a3b65f4bc3b659b0c4892ddd34447434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:18 +0000
Subject: [PATCH 32/46] fix: feature importance of decision errors was not
 computed without progress bar

---
 scripts/beatsdrop/evaluation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 0da377e..b2a907b 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -866,13 +866,13 @@ def decision_report(args):
     it = enumerate(itertools.islice(rkf.split(df[features]), n_samples))
     if args.tqdm:
       it = tqdm.tqdm(it, total=n_samples, desc="Decision errors analysis")
-      for i, (train_index, _) in it:
-        for j, t in enumerate(targets):
-          dtc.fit(df[features].iloc[train_index], df[t].iloc[train_index])
-          idx = 2 * i + j
-          for k, v in zip(dtc.feature_names_in_, dtc.feature_importances_):
-            importances[k][idx] = v
-          importances["target"][idx] = t
+    for i, (train_index, _) in it:
+      for j, t in enumerate(targets):
+        dtc.fit(df[features].iloc[train_index], df[t].iloc[train_index])
+        idx = 2 * i + j
+        for k, v in zip(dtc.feature_names_in_, dtc.feature_importances_):
+          importances[k][idx] = v
+        importances["target"][idx] = t
     importances = pd.DataFrame(importances)
     if importance_fname is not None:
       logger.info("Writing report file: '%s'", importance_fname)
-- 
2.43.0


From ad00af5c91f8dbe614eae0e0335805adee727153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:18 +0000
Subject: [PATCH 33/46] fix: decision test looked at tracks with gaps instead
 of those at the tested frequencies

---
 scripts/beatsdrop/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index b2a907b..e71adb0 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -322,7 +322,7 @@ def test_case_decision(
     with warnings.catch_warnings():
       warnings.simplefilter("ignore")
       s.fit(x, sinusoidal__tracker__fs=fs)
-    median_freqs = np.vectorize(lambda track: np.median(track["freq"]))(
+    median_freqs = np.vectorize(lambda track: np.nanmedian(track["freq"]))(
         s.sinusoidal.tracks_)
 
     res = {
-- 
2.43.0


From 0a44bb112cb8dabce4b407762743a0c43a6627bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:18 +0000
Subject: [PATCH 34/46] fix: reports of evaluations described previous results

---
 scripts/beatsdrop/evaluation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index e71adb0..d9451ee 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -558,6 +558,10 @@ def save_dataframe(args: argparse.Namespace):
   args.df = list2df(args.results, args.fieldnames)
   if args.csv_path is not None and (args.csv_path != args.last_file or
                                     not args.resume or len(args.seeds) > 0):
+    # Statistics on previous results are not valid anymore
+    for suffix in ("_rankresult.dat", "_errors_feature_importance.csv"):
+      if os.path.exists(args.output + suffix):
+        os.remove(args.output + suffix)
     logger.info("Writing CSV file: '%s'", args.csv_path)
     write_csv(args.df, args.csv_path)
   # Clean checkpoints
@@ -738,7 +742,9 @@ def statistical_tests(args: argparse.Namespace):
     args.rank_result = pickle.read_pickled(args.rr_path)
   if args.rr_path is not None and not os.path.exists(args.rr_path):
     logger.info("Saving test results: '%s'", args.rr_path)
-    pickle.save_pickled(args.rank_result, args.rr_path)
+    # If interrupted, do not leave an incomplete file
+    pickle.save_pickled(args.rank_result, f"{args.rr_path}.tmp")
+    os.replace(f"{args.rr_path}.tmp", args.rr_path)
 
   with print_or_write(
       args.output if args.output is None else f"{args.output}_report.tex"):
@@ -876,7 +882,7 @@ def decision_report(args):
     importances = pd.DataFrame(importances)
     if importance_fname is not None:
       logger.info("Writing report file: '%s'", importance_fname)
-      importances.to_csv(importance_fname)
+      write_csv(importances, importance_fname)
   else:
     importances = pd.read_csv(importance_fname)
   # ---------------------------------------------------------------------------
-- 
2.43.0


From 8eec73151db46ddd9543077509e3d06a7df7eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:50 +0000
Subject: [PATCH 35/46] fix: saves interrupted by a crash left truncated user
 files

The settings and the audio cache are replaced only when they are complete
---
 sample/widgets/userfiles.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sample/widgets/userfiles.py b/sample/widgets/userfiles.py
index f9d1363..621ee57 100644
--- a/sample/widgets/userfiles.py
+++ b/sample/widgets/userfiles.py
@@ -43,6 +43,20 @@ class UserDir:
       with open(self.path, encoding=encoding, **kwargs) as f:
         yield f
 
+    @contextlib.contextmanager
+    def _replace(self):
+      """Helper context manager to replace the contents of the file. If the
+      context is not completed, then the previous contents are preserved
+
+      Yields:
+        str: Path of a temporary file to write"""
+      path = os.path.realpath(self.path)
+      head, tail = os.path.split(path)
+      os.makedirs(head, exist_ok=True)
+      tmp = os.path.join(head, f".{tail}.tmp")
+      yield tmp
+      os.replace(tmp, path)
+
     def is_valid(self) -> bool:
       """Check that path is not :data:`None` or empty"""
       return self.userdir.is_valid() and self.subpath is not None and len(
@@ -62,8 +76,9 @@ class UserDir:
       Args:
         data: Python object to serialize
         kwargs: Keyword arguments for :func:`json.dump`"""
-      with self.open(mode="w") as f:
-        json.dump(data, f, **kwargs)
+      with self._replace() as tmp:
+        with open(tmp, mode="w", encoding="utf-8") as f:
+          json.dump(data, f, **kwargs)
 
     def load_json(self, **kwargs):
       """Load JSON from the file and deserialize as a Python object
@@ -78,8 +93,8 @@ class UserDir:
 
       Args:
         data: Python object to serialize"""
-      os.makedirs(os.path.dirname(self.path), exist_ok=True)
-      pickle.save_pickled(data, self.path)
+      with self._replace() as tmp:
+        pickle.save_pickled(data, tmp)
 
     def load_pickled(self):
       """Load pickled data from the file and
-- 
2.43.0


From afa7b551ff2a53f490587be9720c9b5744f71512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:50 +0000
Subject: [PATCH 36/46] fix: beats could not be copied or pickled

The attribute lookup recurred infinitely while the copy was being made
---
 sample/beatsdrop/__init__.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sample/beatsdrop/__init__.py b/sample/beatsdrop/__init__.py
index 24fcd7b..9a440f7 100644
--- a/sample/beatsdrop/__init__.py
+++ b/sample/beatsdrop/__init__.py
@@ -75,13 +75,22 @@ class Beat:
     self._f1 = f1
     self._p0 = p0
     self._p1 = p1
+    self._define_graph()
 
-    # --- Define computational graph ------------------------------------------
+  def _define_graph(self):
+    """Define computational graph"""
     self._graph = {"t": pg.Variable("t")}
     self._define_base_graph()._define_am()._define_fm()
     self._graph["x"] = np2pg.multiply.op(self._graph["am"],
                                          np2pg.cos.op(self._graph["pm"]))
-    # -------------------------------------------------------------------------
+    return self
+
+  def __getstate__(self):
+    return {k: v for k, v in self.__dict__.items() if k != "_graph"}
+
+  def __setstate__(self, state):
+    self.__dict__.update(state)
+    self._define_graph()
 
   def _define_base_graph(self):
     """Define basic derived variables"""
@@ -180,7 +189,8 @@ class Beat:
                        {self._graph["t"]: t})
 
   def __getattr__(self, key: str):
-    if key in self._graph:
+    # The graph is not defined yet while making a copy
+    if key in self.__dict__.get("_graph", ()):
       return functools.partial(self.compute, output=key)
     else:
       raise AttributeError(
-- 
2.43.0


From bfc790665a785c0670aafda01214a00e1629acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:50 +0000
Subject: [PATCH 37/46] fix: gammatone filterbanks could not be copied or
 pickled

The attribute lookup recurred infinitely while the copy was being made,
and special methods were looked up in the filters
---
 sample/psycho.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 8c969e3..3bcc052 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -758,11 +758,15 @@ class GammatoneFilterbank:
   def __getattr__(self, key: str):
     """If attribute is not found, try getting a tuple of attributes,
     one from each filter"""
-    try:
-      return tuple(getattr(f, key) for f in self)
-    except AttributeError:
-      pass
-    return super().__getattr__(key)
+    # Special methods should not be looked up in the filters, and
+    # filters are not defined yet while making a copy
+    if not key.startswith("__") and "_filters" in self.__dict__:
+      try:
+        return tuple(getattr(f, key) for f in self)
+      except AttributeError:
+        pass
+    raise AttributeError(
+        f"'{type(self).__name__}' object has no attribute '{key}'")
 
   class PrecomputedIRBank:
     """Precomputed IR bank for a :class:`GammatoneFilterbank`
-- 
2.43.0


From bc91d7c1c98c9fe34db35dfe529e0fe964547d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:56 +0000
Subject: [PATCH 38/46] fix: the example script divided 8-bit audio by zero

Unsigned formats are offset by half of their range
---
 scripts/beatsdrop/example.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/example.py b/scripts/beatsdrop/example.py
index b06f88f..83a59b1 100644
--- a/scripts/beatsdrop/example.py
+++ b/scripts/beatsdrop/example.py
@@ -134,7 +134,11 @@ def load_audio(args, dtype=np.float64):
   if np.issubdtype(args.x.dtype, np.integer):
     logger.debug("Converting to %s input of type %s", dtype.__name__,
                  args.x.dtype)
-    args.x = np.true_divide(args.x, -np.iinfo(args.x.dtype).min, dtype=dtype)
+    # Half of the range: unsigned formats are offset by this value
+    half = 2**(8 * args.x.dtype.itemsize - 1)
+    args.x = np.true_divide(
+        np.subtract(args.x, half + np.iinfo(args.x.dtype).min, dtype=dtype),
+        half)
   if np.ndim(args.x) > 1:
     logger.debug("Converting to mono from %d channels", args.x.shape[1])
     args.x = np.mean(args.x, axis=-1)
-- 
2.43.0


From 3450f6c50915df0729acddd9e901fa033715d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:56 +0000
Subject: [PATCH 39/46] fix: the example script cropped everything if the end
 was after the audio

The length of the audio was taken as an onset before the end
---
 scripts/beatsdrop/example.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/example.py b/scripts/beatsdrop/example.py
index 83a59b1..87976ff 100644
--- a/scripts/beatsdrop/example.py
+++ b/scripts/beatsdrop/example.py
@@ -172,7 +172,8 @@ def crop_audio(args):
     if i1 is None:
       i1 = min(ons[np.greater(ons, i0)], default=args.x.size)
     if i0 is None:
-      i0 = max(ons[np.less(ons, i1)], default=0)
+      # The last item is not an onset
+      i0 = max(ons[:-1][np.less(ons[:-1], i1)], default=0)
   else:
     i0 = int(args.crop_start * args.fs)
     i1 = int(args.crop_end * args.fs)
-- 
2.43.0


From 3212e6de8cd379f047c294b27aa3d3412952b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 40/46] fix: benchmarked filters use the sampling frequency of
 the benchmark

---
 scripts/cim22/cochleagram_setup.py.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cim22/cochleagram_setup.py.in b/scripts/cim22/cochleagram_setup.py.in
index ac64c3d..282ff50 100644
--- a/scripts/cim22/cochleagram_setup.py.in
+++ b/scripts/cim22/cochleagram_setup.py.in
@@ -8,5 +8,5 @@ np.random.seed(42)
 x = np.random.randn(np.round(fs * dur).astype(int))
 stride = max(1, np.round(fs * {stride_time}).astype(int))
 
-fbank = psycho.GammatoneFilterbank(normalize=True).precompute(fs=44100,
+fbank = psycho.GammatoneFilterbank(normalize=True).precompute(fs=fs,
                                                               analytic=True)
-- 
2.43.0


From 39f498fb0154023b4657589a26008b40904d6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:24 +0000
Subject: [PATCH 41/46] fix: beat regressions refused the documented column
 vector of times

---
 sample/beatsdrop/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/beatsdrop/regression.py b/sample/beatsdrop/regression.py
index d74f22e..7739529 100644
--- a/sample/beatsdrop/regression.py
+++ b/sample/beatsdrop/regression.py
@@ -280,6 +280,7 @@ class BeatRegression(base.RegressorMixin, base.BaseEstimator):
       BeatRegression: self"""
     if self.linear_regressor is None:
       self.linear_regressor = linear_model.LinearRegression()
+    t = np.ravel(t)
     self.res_fn_ = self._residual_fn(t, a, f)
     self.initial_params_ = self.params_init(t, a, f, self.res_fn_, self)
     self.bounds_ = self.bounds(t, a, f, self.initial_params_, self)
-- 
2.43.0


From 5e596cf54791c3de3edf2b13de696e265fd8b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:38 +0000
Subject: [PATCH 42/46] fix: figures could not be arranged horizontally with
 axes shared by all panels or none

---
 scripts/beatsdrop/figures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/figures.py b/scripts/beatsdrop/figures.py
index 7433c05..3a0ba14 100644
--- a/scripts/beatsdrop/figures.py
+++ b/scripts/beatsdrop/figures.py
@@ -164,7 +164,7 @@ def subplots(vshape: Tuple[int, int] = (1, 1),
     for k in ("sharex", "sharey"):
       v = kwargs.get(k, None)
       if isinstance(v, str):
-        kwargs[k] = share_d[v]
+        kwargs[k] = share_d.get(v, v)
   fig, axs = plt.subplots(*shape, **kwargs)
   if horizontal:
     axs = axs.T
-- 
2.43.0


From 814a064ce963360e7e4b0b29b90e03ffdd7bea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:54 +0000
Subject: [PATCH 43/46] fix: showing the trim limits in the GUI could move them
 by one sample

The entries show the limits in seconds, and reading them back truncated
the product with the sample rate, e.g. int(29 / 100 * 100) == 28
---
 sample/widgets/audioload.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 4645bb9..fc49678 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -212,7 +212,7 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         entries. Default is :data:`False`"""
     if self.audio_loaded:
       if not samples:
-        value = int(value * self.audio_sr)
+        value = int(round(value * self.audio_sr))
       if start:
         self.audio_trim_start = min(self.audio_trim_stop - 1, max(0, value))
         logging.debug("Audio trim start: %d", self.audio_trim_start)
-- 
2.43.0


From 1a6ec2dc0e9ec54540b0bfd6dc8f845407cd914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:40 +0000
Subject: [PATCH 44/46] fix: changing tab in the GUI did not clear the
 selections in the settings

The first setting is a spacer and has no entry: the error was ignored by
the main window and no selection was cleared
---
 sample/widgets/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 3f1c2eb..1f159ed 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -543,7 +543,8 @@ class SettingsTab(utils.DataOnRootMixin, tk.Frame):
   def reset_selections(self, *args, **kwargs):  # pylint: disable=W0613
     """Reset selections in entries"""
     for v in self._settings.values():
-      v.entry.selection_clear()
+      if not v.is_spacer:
+        v.entry.selection_clear()
 
   def add_setting(self,
                   name,
-- 
2.43.0


From 45950004336759c52c55350085bc6a221dd6a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:28 +0000
Subject: [PATCH 45/46] fix: progress of a parallel fit went beyond the number
 of tracks

---
 sample/_training.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample/_training.py b/sample/_training.py
index edd94f4..169922c 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -29,6 +29,8 @@ _OptionalStorageManager.register(
 
 class FitArgs:
   """Arguments for :func:`SAMPLE.fit`"""
+  # Whether results should be counted to update progress
+  _count_results = True
 
   def __init__(self, starmap=itertools.starmap, progressbar=None) -> None:
     self.starmap = starmap
@@ -43,7 +45,8 @@ class FitArgs:
       self.progress_start(tot)
     for i in self.starmap(func, it):
       yield i
-      self.progress_update()
+      if self._count_results:
+        self.progress_update()
     if tot is not None:
       self.progress_stop()
 
@@ -124,6 +127,8 @@ def sample_training_context(model: "sample.sample.SAMPLE",
     fit_args_ = copy.copy(fit_args)
     if pool is not None:
       fit_args_.starmap = functools.partial(_progress_starmap, pool, fit_args_)
+      # Progress is already updated while waiting for the results
+      fit_args_._count_results = False  # pylint: disable=W0212
     yield fit_args_
 
 
-- 
2.43.0


From 1d7ad7e2be54509f99ce797d066c9e3a1f831a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:09 +0000
Subject: [PATCH 46/46] fix: errors at the end of a notebook cell were tagged
 again at each run

---
 scripts/utils/yapf_nbformat.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index 4bbbc07..f5813df 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -20,6 +20,7 @@ _command_pattern = re.compile(r"\s*(!|%).*")
 _command_escape_comment = "  # escaped-for-yapf"
 _command_escape_pattern = re.compile(r"\s*pass  # (!|%).*" +
                                      _command_escape_comment)
+_error_tag_pattern = re.compile(r"# yapf:\d+:\d+: .*")
 
 
 class ArgParser(argparse.ArgumentParser):
@@ -136,18 +137,20 @@ def format_nb(filepath: str,
   cells = filter(
       lambda c: "# yapf: ignore" not in c[1]["source"].split("\n", 1)[0], cells)
   for i, cell in cells:
-    src_changed = False
-    new_src = "\n".join(map(_wrap_command_line, cell["source"].splitlines()))
+    lines = cell["source"].splitlines()
+    if tag_errors:
+      # A previous tag may move the position of errors at the end of the cell
+      while lines and _error_tag_pattern.fullmatch(lines[-1]):
+        lines.pop()
+    new_src = "\n".join(map(_wrap_command_line, lines))
     try:
       new_src, _ = yapf_api.FormatCode(new_src, style_config=style)
     except yapf_api.errors.YapfError as e:
       se = f"# yapf{e.args[0][9:]}"
       if se not in new_src and tag_errors:
         new_src += "\n" + se
-        src_changed = True
     new_src = "\n".join(map(_unwrap_command_line, new_src.splitlines()))
-    src_changed = src_changed or cell["source"] != new_src
-    if src_changed:
+    if cell["source"] != new_src:
       # pylint: disable=W0125
       d = difflib.unified_diff(cell["source"].splitlines(keepends=True),
                                new_src.splitlines(keepends=True))
-- 
2.43.0

