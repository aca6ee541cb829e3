From c1c2b3a2357f19bcd4f670b4f623f744e732c20a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:51:18 +0000
Subject: [PATCH 01/20] fix: EMD simple extrema: skip the plateau at the signal
 start, not the one after the first sample

---
 PyEMD/EMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 7a82403..1a00d76 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -646,7 +646,7 @@ class EMD:
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
 
-            if len(debs) > 0 and debs[0] == 1:
+            if len(debs) > 0 and debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
-- 
2.43.0


From 4abedf8db193a3e420877a59a4d71b98ed3f8f2b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:51:18 +0000
Subject: [PATCH 02/20] fix: EMD_matlab extrema: skip the plateau at the signal
 start, not the one after the first sample

---
 PyEMD/EMD_matlab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 30530e5..5e1bd5f 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -352,7 +352,7 @@ class EMD:
             dd = np.diff(np.append(np.append(0, bad), 0))
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
-            if debs[0] == 1:
+            if debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
-- 
2.43.0


From c4b39eb8e114481c9a2d04e0725c0f5d58531eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:51:18 +0000
Subject: [PATCH 03/20] fix: JitEMD extrema: skip the plateau at the signal
 start, not the one after the first sample

---
 PyEMD/experimental/jitemd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index efdc10d..3c8b4be 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -191,7 +191,7 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
         dd = nb_diff(np.append(np.append(0, same_values), 0))
         _left_idx = np.nonzero(dd == 1)[0]
         _right_idx = np.nonzero(dd == -1)[0]
-        if _left_idx[0] == 1:
+        if _left_idx[0] == 0:
             _left_idx = _left_idx[1:]
             _right_idx = _right_idx[1:]
 
-- 
2.43.0


From 5c7f4a06da664910c6f41b351ae5a005bd77735d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:51:18 +0000
Subject: [PATCH 04/20] fix: get_imfs_and_trend raised IndexError when the
 signal has no IMF and a zero residue

---
 PyEMD/EMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 1a00d76..603145a 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -954,7 +954,7 @@ class EMD:
             raise ValueError("No IMF found. Please, run EMD method or its variant first.")
 
         imfs, residue = self.get_imfs_and_residue()
-        if np.allclose(residue, 0):
+        if len(imfs) > 0 and np.allclose(residue, 0):
             return imfs[:-1].copy(), imfs[-1].copy()
         else:
             return imfs, residue
-- 
2.43.0


From fa0f8879b20ccca1b796422372fafbeb22fcce8b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:51:18 +0000
Subject: [PATCH 05/20] fix: plot_imfs crashed on a single row and on a truthy,
 non-True include_residue

---
 PyEMD/visualisation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index eb6578e..5aac3b9 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -52,14 +52,14 @@ class Visualisation(object):
         imfs, residue = self._check_imfs(imfs, residue, include_residue)
 
         num_rows, t_length = imfs.shape
-        num_rows += include_residue is True
+        num_rows += bool(include_residue)
 
         t = t if t is not None else range(t_length)
 
         fig, axes = plt.subplots(num_rows, 1, figsize=(self.PLOT_WIDTH, num_rows * self.PLOT_HEIGHT_PER_IMF))
 
         if num_rows == 1:
-            axes = list(axes)
+            axes = fig.axes
 
         axes[0].set_title("Time series")
 
-- 
2.43.0


From 0d790362c9436f013db39431867e3a1db3479389 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:51:18 +0000
Subject: [PATCH 06/20] fix: parallel EEMD gave the same noise to many trials
 and never advanced the seeded stream

---
 PyEMD/EEMD.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index e4ebe2b..f66ac96 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -196,7 +196,10 @@ class EEMD:
             map_pool = pool.map
         else:
             map_pool = map
-        all_IMFs = map_pool(self._trial_update, range(self.trials))
+        # Noise is drawn here rather than in the workers. Each worker works on its own copy of
+        # the random state, thus noise drawn there would be the same for many trials.
+        noises = (self.generate_noise(scale, self._N) for _ in range(self.trials))
+        all_IMFs = map_pool(self._trial_update, noises)
 
         if self.parallel:
             pool.close()
@@ -229,12 +232,8 @@ class EEMD:
 
         return self.E_IMF
 
-    def _trial_update(self, trial) -> Tuple[np.ndarray, Optional[np.ndarray]]:
-        """A single trial evaluation, i.e. EMD(signal + noise).
-
-        *Note*: Although `trial` argument isn't used it's needed for the (multiprocessing) map method.
-        """
-        noise = self.generate_noise(self._scale, self._N)
+    def _trial_update(self, noise: np.ndarray) -> Tuple[np.ndarray, Optional[np.ndarray]]:
+        """A single trial evaluation, i.e. EMD(signal + noise)."""
         imfs = self.emd(self._S + noise, self._T, self.max_imf)
         trend = None
         if self.separate_trends:
-- 
2.43.0


From 47048ae3b50093dfe1e5042f5a61f7cca2d67f75 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:52:49 +0000
Subject: [PATCH 07/20] fix: get_timeline lost samples for float16/float32
 signals longer than their exact integer range

---
 PyEMD/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyEMD/utils.py b/PyEMD/utils.py
index ed91a26..4e193cf 100644
--- a/PyEMD/utils.py
+++ b/PyEMD/utils.py
@@ -21,7 +21,9 @@ def get_timeline(range_max: int, dtype: Optional[np.dtype] = None) -> np.ndarray
 
     """
     timeline = np.arange(0, range_max, dtype=dtype)
-    if timeline[-1] != range_max - 1:
+    is_float = np.issubdtype(timeline.dtype, np.floating)
+    loses_integers = is_float and range_max > 2 ** (np.finfo(timeline.dtype).nmant + 1)
+    if loses_integers or timeline[-1] != range_max - 1:
         inclusive_dtype = smallest_inclusive_dtype(timeline.dtype, range_max)
         timeline = np.arange(0, range_max, dtype=inclusive_dtype)
     return timeline
@@ -50,10 +52,10 @@ def smallest_inclusive_dtype(ref_dtype: np.dtype, ref_value) -> np.dtype:
     # Float path
     if np.issubdtype(ref_dtype, np.floating):
         for dtype in [np.float16, np.float32, np.float64]:
-            if ref_value < np.finfo(dtype).max:
+            max_val = 2 ** (np.finfo(dtype).nmant + 1)  # Largest range of exactly represented integers
+            if ref_value <= max_val:
                 return dtype
-        max_val = np.finfo(np.float64).max
-        raise ValueError("Requested too large integer range. Exceeds max( float64 ) == '{}.".format(max_val))
+        raise ValueError("Requested too large integer range. Exceeds float64's exact integers, i.e. '{}.".format(max_val))
 
     raise ValueError("Unsupported dtype '{}'. Only intX and floatX are supported.".format(ref_dtype))
 
-- 
2.43.0


From ca52bf55acddcef88c7f4817194efb9d6d9f0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:55:11 +0000
Subject: [PATCH 08/20] fix: parabolic detection took flat steps of a slope for
 extrema, which crashed EMD

---
 PyEMD/EMD.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 603145a..cd58f73 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -600,6 +600,10 @@ class EMD:
         tVertex = -0.5 * b / a
         idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))
 
+        # A flat step on a slope, or at the beginning of the signal, isn't an extremum
+        d = np.diff(S)
+        idx &= ~((d[:-1] == 0) & (np.append(0, d[:-2]) * d[1:] >= 0))
+
         a, b, c = a[idx], b[idx], c[idx]
         tVertex = tVertex[idx]
         sVertex = a * tVertex * tVertex + b * tVertex + c
-- 
2.43.0


From 5122232582f1e10e68ec44a7419024303e6a7bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:22 +0000
Subject: [PATCH 09/20] fix: parabolic detection decides flat steps by the
 surrounding slopes, not by rounding of the vertex

---
 PyEMD/EMD.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index cd58f73..281f81d 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -600,9 +600,10 @@ class EMD:
         tVertex = -0.5 * b / a
         idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))
 
-        # A flat step on a slope, or at the beginning of the signal, isn't an extremum
+        # A flat step belongs to its second point, and is an extremum only if the slope changes sign around it
         d = np.diff(S)
-        idx &= ~((d[:-1] == 0) & (np.append(0, d[:-2]) * d[1:] >= 0))
+        idx[d[:-1] == 0] = (np.append(0, d[:-2]) * d[1:] < 0)[d[:-1] == 0]
+        idx[d[1:] == 0] = False
 
         a, b, c = a[idx], b[idx], c[idx]
         tVertex = tVertex[idx]
-- 
2.43.0


From 7ce40988975ad5d23dde9137777cbcd83a6174ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:16 +0000
Subject: [PATCH 10/20] fix: JitEMD trend accessor dropped or mistook
 components when there is no residue

---
 PyEMD/experimental/jitemd.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 3c8b4be..dab3bdb 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -60,9 +60,10 @@ class JitEMD:
         self.residue = None
 
     def get_imfs_and_trend(self):
-        if np.allclose(self.residue, 0):
-            return self.imfs[:-1].copy(), self.imfs[-1].copy()
-        return self.imfs, self.residue
+        if self.imfs is None or self.residue is None:
+            raise ValueError("No IMF found. Please, run EMD method or its variant first.")
+        # The last row is always the trend; either the residue or, if that's zero, the slowest IMF
+        return self.imfs.copy(), self.residue.copy()
 
     def emd(self, s, t, max_imf=-1):
         imfs = emd(
@@ -73,8 +74,8 @@ class JitEMD:
             extrema_detection=self.extrema_detection,
             config=self.config,
         )
-        self.imfs = imfs[:-1, :]
-        self.residue = imfs[-1:, :]
+        self.imfs = imfs[:-1, :].copy()
+        self.residue = s - np.sum(self.imfs, axis=0)
         return imfs
 
     def __call__(self, s, t, max_imf=-1):
-- 
2.43.0


From 0fa8f7d29044572425feb63b764d70fb709a32cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:32 +0000
Subject: [PATCH 11/20] fix: JitEMD parabolic detection reported flat steps of
 a slope as extrema

---
 PyEMD/experimental/jitemd.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index dab3bdb..3888db8 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -278,6 +278,14 @@ def _find_extrema_parabol(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     tVertex = -0.5 * b / a
     idx = np.logical_and(tVertex < T0 + 0.5 * (Tn - T0), tVertex >= T0 - 0.5 * (T0 - Tp))
 
+    # A flat step belongs to its second point, and is an extremum only if the slope changes sign around it
+    d = nb_diff(S)
+    for i in range(len(idx)):
+        if d[i + 1] == 0:
+            idx[i] = False
+        elif d[i] == 0:
+            idx[i] = i > 0 and d[i - 1] * d[i + 1] < 0
+
     a, b, c = a[idx], b[idx], c[idx]
     tVertex = tVertex[idx]
     sVertex = a * tVertex * tVertex + b * tVertex + c
-- 
2.43.0


From 7534c0316d247a32948c6ac1ffdcd680acb3a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:01 +0000
Subject: [PATCH 12/20] fix: straight segments are never parabolic extrema,
 however small their slope

---
 PyEMD/EMD.py                 | 2 ++
 PyEMD/experimental/jitemd.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 281f81d..0b11c26 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -596,9 +596,11 @@ class EMD:
         a = a / scale
         b = b / scale
         c = c / scale
+        straight = a == 0
         a[a == 0] = 1e-14
         tVertex = -0.5 * b / a
         idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))
+        idx[straight] = False
 
         # A flat step belongs to its second point, and is an extremum only if the slope changes sign around it
         d = np.diff(S)
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 3888db8..7d5544a 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -274,9 +274,11 @@ def _find_extrema_parabol(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     a = a / scale
     b = b / scale
     c = c / scale
+    straight = a == 0
     a[a == 0] = 1e-14
     tVertex = -0.5 * b / a
     idx = np.logical_and(tVertex < T0 + 0.5 * (Tn - T0), tVertex >= T0 - 0.5 * (T0 - Tp))
+    idx[straight] = False
 
     # A flat step belongs to its second point, and is an extremum only if the slope changes sign around it
     d = nb_diff(S)
-- 
2.43.0


From 24b4969f24c0364efd51df7e33df0a14ae72e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:54 +0000
Subject: [PATCH 13/20] fix: JitEMD never returned once a mode reached
 MAX_ITERATION

numba's loop lifting miscompiles the sifting loop's exits in object mode
---
 PyEMD/experimental/jitemd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 7d5544a..af2bf78 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -797,6 +797,7 @@ def _normalize_time(t: np.ndarray) -> np.ndarray:
     ),
     nopython=False,
     forceobj=True,
+    looplift=False,
 )
 def emd(
     S: np.ndarray,
-- 
2.43.0


From fc17c4a1cf08197b71faef2aaebd444a78af7a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 14/20] fix: EMD2D wrapped around for small integer images

The range of an int8/int16 image does not fit its own type: scale and shifted
pixels wrapped and the components did not add up to the image.
---
 PyEMD/EMD2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 2dbf5fb..f7e6ecb 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -292,7 +292,7 @@ class EMD2D:
             Set of IMFs in form of numpy array where the first dimension
             relates to IMF's ordinary number.
         """
-        image_min, image_max = np.min(image), np.max(image)
+        image_min, image_max = float(np.min(image)), float(np.max(image))
         offset = image_min
         scale = image_max - image_min
 
-- 
2.43.0


From 8a8589fad96b8980b1efdda0746327c58cd16801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 15/20] fix: EMD2D returned NaN for a constant image

---
 PyEMD/EMD2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index f7e6ecb..2d7964f 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -294,7 +294,7 @@ class EMD2D:
         """
         image_min, image_max = float(np.min(image)), float(np.max(image))
         offset = image_min
-        scale = image_max - image_min
+        scale = (image_max - image_min) or 1.0
 
         image_s = (image - offset) / scale
 
-- 
2.43.0


From 58c67dcfad1d049479c2e573481cac06d8f5459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 16/20] fix: EMD2D compared the scaled components with the
 unscaled image

A complete reconstruction was only recognised for images ranging over [0, 1];
others went on extracting empty components.
---
 PyEMD/EMD2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 2d7964f..47ea5fa 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -366,7 +366,7 @@ class EMD2D:
             IMF = np.vstack((IMF, imf.copy()[None, :]))
             imfNo += 1
 
-            if self.end_condition(image, IMF) or (max_imf > 0 and imfNo >= max_imf):
+            if self.end_condition(image_s, IMF) or (max_imf > 0 and imfNo >= max_imf):
                 notFinished = False
                 break
 
-- 
2.43.0


From 47685a000f4a5e579c6faaee1e03d52695efe75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 17/20] fix: EMD_matlab ignored a limit of one mode

---
 PyEMD/EMD_matlab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 5e1bd5f..8428ef4 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -605,7 +605,7 @@ class EMD:
             TIME[imfNo] = time.time() - timeInit
             imfNo += 1
 
-            if imfNo == maxImf - 1:
+            if 0 < maxImf <= imfNo + 1:
                 notFinish = False
                 break
 
-- 
2.43.0


From c99206a09071645950ceb186093e1174c63445c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:03 +0000
Subject: [PATCH 18/20] fix: EEMD noise level of small integer signals wrapped
 around

max - min of an int8/int16 signal was computed in that type, so a full-scale
signal got noise of the wrong, even vanishing, amplitude.
---
 PyEMD/EEMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index f66ac96..264121d 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -182,7 +182,7 @@ class EEMD:
         if T is None:
             T = get_timeline(len(S), S.dtype)
 
-        scale = self.noise_width * np.abs(np.max(S) - np.min(S))
+        scale = self.noise_width * np.abs(float(np.max(S)) - float(np.min(S)))
         self._S = S
         self._T = T
         self._N = len(S)
-- 
2.43.0


From 5fea50ab6de0781d7784baff70a4094ab7501876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:29 +0000
Subject: [PATCH 19/20] fix: find_extrema wrapped around on integers and
 underflowed in short float types

---
 PyEMD/EMD.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 0b11c26..165bb9a 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -542,6 +542,9 @@ class EMD:
         local_min_val : numpy array
             Values of local minima.
         """
+        # Products and differences of samples in narrow types wrap around or underflow
+        S = np.asarray(S, dtype=np.result_type(S, np.float64))
+
         if self.extrema_detection == "parabol":
             return self._find_extrema_parabol(T, S)
         elif self.extrema_detection == "simple":
-- 
2.43.0


From 26173f98886de6bda2dd420049581198cebda237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:46 +0000
Subject: [PATCH 20/20] fix: cubic envelopes of float16 and long double signals
 raised TypeError

---
 PyEMD/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyEMD/splines.py b/PyEMD/splines.py
index ea3cec4..1a69bc4 100644
--- a/PyEMD/splines.py
+++ b/PyEMD/splines.py
@@ -22,8 +22,8 @@ def cubic_spline_3pts(x, y, T):
     v3 = 3 * y2y1 * _x2x1 * _x2x1
     v2 = v1 + v3
 
-    M = np.array([[m11, m12, m13], [m21, m22, m23], [m31, m32, m33]])
-    v = np.array([v1, v2, v3]).T
+    M = np.array([[m11, m12, m13], [m21, m22, m23], [m31, m32, m33]], dtype=np.float64)
+    v = np.array([v1, v2, v3], dtype=np.float64).T
     k = np.linalg.solve(M, v)
 
     a1 = k[0] * x1x0 - y1y0
-- 
2.43.0

