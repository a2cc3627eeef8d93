From 17cb1acd2d288389c33c7907b0e0427cf6bb0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 001/113] fix: a time slice that ends before the first sample
 selects nothing

---
 zounds/timeseries/timeseries.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index b20938e..f48dcc7 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -271,7 +271,9 @@ class TimeDimension(Dimension):
         ratio = np.round(end / self.frequency, 2)
 
 
-        stop_index = np.ceil(ratio)
+        # a slice that ends before the first sample selects nothing, it must not
+        # be mistaken for an offset from the end of the array
+        stop_index = max(0, np.ceil(ratio))
         return slice(int(start_index), int(stop_index))
 
     def __eq__(self, other):
-- 
2.43.0


From 33208d8945d9650172f0f4ff51a06e553a86347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 002/113] fix: linear scales with a single band have bands too

---
 zounds/spectral/frequencyscale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index f775818..9fbe45e 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -401,7 +401,7 @@ class LinearScale(FrequencyScale):
         freqs = np.linspace(
             self.start_hz, self.stop_hz, self.n_bands, endpoint=False)
         # constant, non-overlapping bandwidth
-        bandwidth = freqs[1] - freqs[0]
+        bandwidth = (self.stop_hz - self.start_hz) / self.n_bands
         return tuple(FrequencyBand(f, f + bandwidth) for f in freqs)
 
 
-- 
2.43.0


From 62f288aa21a9f0308e530a5be65a897da1a9a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 003/113] fix: new axes in an index do not consume a dimension

---
 zounds/core/axis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 8e510c3..5af872e 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -245,16 +245,19 @@ class ArrayWithUnits(np.ndarray):
 
     def _compute_indices(self, index):
         dims_pos = 0
+        not_ellipsis_or_none = len([x for x in index if x is not Ellipsis and x is not None])
         for sl in index:
-            if sl is None \
-                    or isinstance(sl, int) \
+            if sl is None:
+                # np.newaxis doesn't consume any of the existing dimensions
+                yield sl
+            elif isinstance(sl, int) \
                     or self._is_integer_based_slice(sl) \
                     or isinstance(sl, list):
                 # burn one
                 dims_pos += 1
                 yield sl
             elif sl is Ellipsis:
-                dims_pos += len(self.dimensions) - (len(index) - 1)
+                dims_pos += len(self.dimensions) - not_ellipsis_or_none
                 yield Ellipsis
             else:
                 dim = self.dimensions[dims_pos]
-- 
2.43.0


From fba2f5534d61b483843903c96533f7ff927db0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 004/113] fix: squeezing an empty array keeps its empty axes

---
 zounds/core/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 5af872e..8828ace 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -99,7 +99,7 @@ class ArrayWithUnits(np.ndarray):
             [IdentityDimension() for _ in shape])
 
     def squeeze(self):
-        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] > 1]
+        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] != 1]
         return ArrayWithUnits(
             super().reshape([s for s, _ in zipped]),
             [d for _, d in zipped])
-- 
2.43.0


From 829eb4b2a4a05ee4197574d405cc91a4c5ed1f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 005/113] fix: numpy integers and integer arrays index arrays
 with units like ints and lists do

---
 zounds/core/axis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 8828ace..9c67d39 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -250,9 +250,9 @@ class ArrayWithUnits(np.ndarray):
             if sl is None:
                 # np.newaxis doesn't consume any of the existing dimensions
                 yield sl
-            elif isinstance(sl, int) \
+            elif isinstance(sl, (int, np.integer)) \
                     or self._is_integer_based_slice(sl) \
-                    or isinstance(sl, list):
+                    or isinstance(sl, (list, np.ndarray)):
                 # burn one
                 dims_pos += 1
                 yield sl
@@ -272,10 +272,10 @@ class ArrayWithUnits(np.ndarray):
             if sl is None:
                 # additional dimension via np.newaxis
                 yield IdentityDimension()
-            elif isinstance(sl, int):
+            elif isinstance(sl, (int, np.integer)):
                 # burn a dimension
                 dims_pos += 1
-            elif isinstance(sl, list):
+            elif isinstance(sl, (list, np.ndarray)):
                 dims_pos += 1
                 shape_pos += 1
                 yield IdentityDimension()
@@ -309,7 +309,7 @@ class ArrayWithUnits(np.ndarray):
                 return a
             else:
                 return a,
-        if isinstance(a, np.ndarray) and a.dtype == np.bool:
+        if isinstance(a, np.ndarray):
             return a,
         try:
             return tuple(a)
@@ -329,7 +329,7 @@ class ArrayWithUnits(np.ndarray):
                 and index.dtype == np.bool:
             return np.asarray(self)[index]
 
-        if self.ndim == 1 and isinstance(index, int):
+        if self.ndim == 1 and isinstance(index, (int, np.integer)):
             return np.asarray(self)[index]
 
         index = self._tuplify(index)
-- 
2.43.0


From 7a7a16f8da00ddaf0e45981fe34d42906e160243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 006/113] fix: explicit scales with different numbers of bands
 are not equal

---
 zounds/spectral/frequencyscale.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index 9fbe45e..b49e97c 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -509,7 +509,9 @@ class ExplicitScale(FrequencyScale):
         return self._bands
 
     def __eq__(self, other):
-        return all([a == b for (a, b) in zip(self, other)])
+        return \
+            len(self) == len(other) \
+            and all([a == b for (a, b) in zip(self, other)])
 
 
 class Bark(Hertz):
-- 
2.43.0


From b175115018526896ce9c2d9a0b79a19ac5d529db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 007/113] fix: explicit frequency dimensions stay aligned with
 the columns of a slice

---
 zounds/spectral/tfrepresentation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index 555c926..a17e309 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -120,14 +120,22 @@ class ExplicitFrequencyDimension(Dimension):
             try:
                 slce = self._lookup[index]
                 return ExplicitFrequencyDimension(
-                    ExplicitScale([index]), [slce])
+                    ExplicitScale([index]), self._rebase([slce]))
             except KeyError:
                 slce = self.scale.get_slice(index)
         else:
             slce = index
 
-        print(slce)
-        return ExplicitFrequencyDimension(self.scale[slce], self.slices[slce])
+        return ExplicitFrequencyDimension(
+            self.scale[slce], self._rebase(self.slices[slce]))
+
+    def _rebase(self, slices):
+        """
+        The sliced array begins at the first of the selected slices, so offsets
+        must become relative to it
+        """
+        offset = slices[0].start
+        return [slice(s.start - offset, s.stop - offset) for s in slices]
 
     def integer_based_slice(self, index):
         if not isinstance(index, frequencyscale.FrequencyBand):
-- 
2.43.0


From 49bdf412e6eae46ffedd4b532274e44092a207b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 008/113] fix: always_even slices that reach the top of a scale
 are even too

---
 zounds/spectral/frequencyscale.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index b49e97c..7336127 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -325,7 +325,11 @@ class FrequencyScale(object):
             # KLUDGE: This is simple, but it may make sense to choose move the
             # upper *or* lower bound, based on which one introduces a lower
             # error
-            stop_index += 1
+            if stop_index < len(self) or start_index == 0:
+                stop_index += 1
+            else:
+                # there is no band above this slice
+                start_index -= 1
         return slice(start_index, stop_index)
 
     def __getitem__(self, index):
-- 
2.43.0


From 3704dbf042f87fc08edf5ca30c4640d49f989579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 009/113] fix: slices of bark and mel scales keep the bands
 they were taken from

---
 zounds/spectral/frequencyscale.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index 7336127..6e4f783 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -540,6 +540,9 @@ class BarkScale(FrequencyScale):
     def __init__(self, frequency_band, n_bands):
         super(BarkScale, self).__init__(frequency_band, n_bands)
 
+    def _construct_scale_from_slice(self, bands):
+        return ExplicitScale(bands)
+
     def _compute_bands(self):
         start = Bark.to_bark(self.frequency_band.start_hz)
         stop = Bark.to_bark(self.frequency_band.stop_hz)
@@ -569,6 +572,9 @@ class MelScale(FrequencyScale):
     def __init__(self, frequency_band, n_bands):
         super(MelScale, self).__init__(frequency_band, n_bands)
 
+    def _construct_scale_from_slice(self, bands):
+        return ExplicitScale(bands)
+
     def _compute_bands(self):
         start = Mel.to_mel(self.frequency_band.start_hz)
         stop = Mel.to_mel(self.frequency_band.stop_hz)
-- 
2.43.0


From 1c73ea8ce098c747655dd848aa80ce7886f9990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 010/113] fix: the intersection of two time slices starts where
 both have started

---
 zounds/timeseries/timeseries.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index f48dcc7..3c03aa9 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -87,10 +87,9 @@ class TimeSlice(object):
             return self.start.__ge__(other)
 
     def __and__(self, other):
-        delta = max(
-            Picoseconds(0),
-            min(self.end, other.end) - max(self.start, other.start))
-        return TimeSlice(delta)
+        start = max(self.start, other.start)
+        delta = max(Picoseconds(0), min(self.end, other.end) - start)
+        return TimeSlice(delta, start=start)
 
     def __contains__(self, other):
         if isinstance(other, np.timedelta64):
-- 
2.43.0


From e1f2f3a518dcb5b680c51b637335d8c96349251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 011/113] fix: a variable-rate series ends where its last slice
 to end does

---
 zounds/timeseries/variablerate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index a96c071..ebf65d0 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -58,8 +58,8 @@ class VariableRateTimeSeries(object):
     @property
     def end(self):
         try:
-            return self._data.timeslice[-1].end
-        except IndexError:
+            return max(ts.end for ts in self._data.timeslice)
+        except ValueError:
             return Seconds(0)
 
     def __getitem__(self, index):
-- 
2.43.0


From 1f2af99f3e106c3ce2e11dd1d0611fdff78faa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 012/113] fix: stored variable-rate series keep picosecond
 exact positions

---
 zounds/timeseries/variablerate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index ebf65d0..19913db 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -90,8 +90,8 @@ class VariableRateTimeSeriesEncoder(NumpyEncoder):
         ])
         ps = Picoseconds(1)
         output.slicedata[:] = data.slicedata
-        output.start[:] = [ts.start / ps for ts in data.slices]
-        output.duration[:] = [ts.duration / ps for ts in data.slices]
+        output.start[:] = [ts.start // ps for ts in data.slices]
+        output.duration[:] = [ts.duration // ps for ts in data.slices]
         return output
 
 
-- 
2.43.0


From f2968f526a8c2e38d0671a7ad6c31ff35368a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 013/113] fix: entries of a variable-rate series keep their
 precision whatever the first one's type

---
 zounds/timeseries/variablerate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index 19913db..4bec0d4 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -2,6 +2,7 @@ import numpy as np
 from .timeseries import TimeSlice
 from .duration import Seconds, Picoseconds
 from featureflow import Feature, BaseNumpyDecoder, NumpyEncoder
+from functools import reduce
 from itertools import chain
 
 
@@ -16,7 +17,9 @@ class VariableRateTimeSeries(object):
         try:
             example = data[0][1]
             shape = example.shape
-            dtype = example.dtype
+            # no entry may lose precision to the data type of another one
+            dtype = reduce(
+                np.promote_types, set(d.dtype for _, d in data))
         except IndexError:
             shape = (0,)
             dtype = np.uint8
-- 
2.43.0


From 5d4eb417396e5ab7eee017b3c0551e9ab1b847e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 014/113] fix: numpy integers index variable-rate series like
 ints do

---
 zounds/timeseries/variablerate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index 4bec0d4..f4d96e2 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -75,7 +75,7 @@ class VariableRateTimeSeries(object):
                  if x.timeslice.end > index.start and
                  (index.duration is None or x.timeslice.start < index.end))
             return VariableRateTimeSeries(g)
-        elif isinstance(index, int):
+        elif isinstance(index, (int, np.integer)):
             return self._data[index]
         else:
             return VariableRateTimeSeries(self._data[index])
-- 
2.43.0


From c7f60da9a73cc228f4fafc9e264db39eb36d4537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 015/113] fix: exactly one window is a full window, and padding
 reaches every sample but adds no window of its own

---
 zounds/nputil/npx.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index e6c18da..19caf46 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -93,17 +93,18 @@ def _wpad(l, windowsize, stepsize):
     Returns
         The length the input array should be so that no samples are leftover
     """
+    if l == 0:
+        return 0
+
     if l <= windowsize:
         return windowsize
 
-    nsteps = ((l // stepsize) * stepsize)
     overlap = (windowsize - stepsize)
-    if overlap:
-        return nsteps + overlap
-
-    diff = (l - nsteps)
-    left = max(0, windowsize - diff)
-    return l + left if diff else l
+    padded = ((l // stepsize) * stepsize) + overlap
+    if l % stepsize and padded < l:
+        # the last samples aren't part of any window yet
+        padded += stepsize
+    return max(l, padded)
 
 
 def _wcut(l, windowsize, stepsize):
@@ -117,7 +118,7 @@ def _wcut(l, windowsize, stepsize):
         The length the input array should be so that leftover samples are ignored
     """
     end = l - windowsize
-    if l <= windowsize:
+    if l < windowsize:
         return 0, 0
     elif end % stepsize:
         l = windowsize + ((end // stepsize) * stepsize)
-- 
2.43.0


From e9585b6ebbcf27d922bedaf932a52f100cb6d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 016/113] fix: arrays with units can be cut into windows of one
 sample

---
 zounds/core/axis.py  | 4 ++++
 zounds/nputil/npx.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 9c67d39..edc34e6 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -209,6 +209,10 @@ class ArrayWithUnits(np.ndarray):
         if not result.size:
             return self, ArrayWithUnits(result, self.dimensions)
 
+        if result.ndim == self.ndim:
+            # windows of a single sample
+            result = np.asarray(result)[:, None]
+
         try:
             new_dims = tuple(self._compute_new_dims(result, ws, ss))
         except ValueError:
diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index 19caf46..ff7776b 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -156,7 +156,7 @@ def windowed(a, windowsize, stepsize=None, dopad=False):
         return np.zeros((0,) + a.shape[1:], dtype=a.dtype), a
 
     if windowsize == 1 and stepsize > 1:
-        return np.zeros(0, dtype=a.dtype), a[::stepsize]
+        return np.zeros((0,) + a.shape[1:], dtype=a.dtype), a[::stepsize]
 
     # the original length of the input array
     l = a.shape[0]
-- 
2.43.0


From 81d13c1a1508b59c6e88d0d2f53adeb8add06290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 017/113] fix: a sliding window as large as a plain axis has
 one dimension per axis

---
 zounds/core/axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index edc34e6..055fee5 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -183,6 +183,10 @@ class ArrayWithUnits(np.ndarray):
         try:
             new_dims = tuple(self._compute_new_dims(result, ws, ss))
         except ValueError:
+            new_dims = ()
+
+        if len(new_dims) != result.ndim:
+            # the windows can't be described in terms of the dimensions
             new_dims = [IdentityDimension()] * result.ndim
 
         return ArrayWithUnits(result, new_dims)
-- 
2.43.0


From 98d5cea5a2ba13c40ebafd3272ce44e985cba9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 018/113] fix: sliding windows of one sample leave leftovers
 with units

---
 zounds/core/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 055fee5..f86c002 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -222,6 +222,8 @@ class ArrayWithUnits(np.ndarray):
         except ValueError:
             new_dims = [IdentityDimension()] * result.ndim
 
+        # windowed() doesn't always hand back a slice of this array
+        leftovers = ArrayWithUnits(np.asarray(leftovers), self.dimensions)
         return leftovers, ArrayWithUnits(result, new_dims)
 
     def _compute_new_dims(self, windowed, ws, ss):
-- 
2.43.0


From 6d6a13cd75543583ae8c44910981847d39a5e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 019/113] fix: sliding window node keeps its place when the
 step is longer than the window

---
 zounds/spectral/sliding_window.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/zounds/spectral/sliding_window.py b/zounds/spectral/sliding_window.py
index c63776e..7e29d0e 100644
--- a/zounds/spectral/sliding_window.py
+++ b/zounds/spectral/sliding_window.py
@@ -172,6 +172,8 @@ class SlidingWindow(Node):
         self._func = wfunc
         self._padwith = padwith
         self._cache = None
+        # samples of the chunks to come that lie before the next window
+        self._skip = 0
 
     def _first_chunk(self, data):
         if self._padwith:
@@ -183,6 +185,10 @@ class SlidingWindow(Node):
             return data
 
     def _enqueue(self, data, pusher):
+        if self._skip:
+            skip, self._skip = self._skip, max(0, self._skip - len(data))
+            data = data[skip:]
+
         if self._cache is None:
             self._cache = data
         else:
@@ -199,6 +205,11 @@ class SlidingWindow(Node):
         if not arr.size:
             raise NotEnoughData()
 
+        # when the step is longer than the window, the next window might start
+        # beyond the samples that have arrived so far
+        _, (step, *_) = self._cache._sliding_window_integer_slices(
+            duration, frequency)
+        self._skip = max(0, len(arr) * step - len(self._cache))
         self._cache = leftover
 
         # BUG: Order matters here (try arr * self._func instead)
-- 
2.43.0


From b9fed667fbc5e61d347a6aedd51d42812e7c1b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 020/113] fix: Flux has one dimension less than its input

---
 zounds/segment/onset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/segment/onset.py b/zounds/segment/onset.py
index 0c9c3e3..eebcfe6 100644
--- a/zounds/segment/onset.py
+++ b/zounds/segment/onset.py
@@ -124,7 +124,7 @@ class Flux(Node):
         diff = np.diff(data, axis=0)
 
         yield ArrayWithUnits(
-            np.linalg.norm(diff, axis=-1), data.dimensions)
+            np.linalg.norm(np.asarray(diff), axis=-1), data.dimensions[:-1])
 
 
 class BasePeakPicker(Node):
-- 
2.43.0


From c28da916b23cc95744fa01f91df87513f31074dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 021/113] fix: Sum node sums its input

---
 zounds/basic/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/basic/basic.py b/zounds/basic/basic.py
index 31349d2..a914ac2 100644
--- a/zounds/basic/basic.py
+++ b/zounds/basic/basic.py
@@ -90,7 +90,7 @@ class Sum(Node):
         # TODO: This should be generalized.  Sum will have this same problem
         try:
             # data = np.sum(data, axis=self._axis)
-            data = np.sum(axis=self._axis)
+            data = data.sum(axis=self._axis)
         except ValueError:
             print('ERROR')
             data = data
-- 
2.43.0


From 2ef1de9bb9bf1a0d87daea06ba746b605186991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 022/113] fix: ComplexDomain works on arrays with units

---
 zounds/segment/onset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/segment/onset.py b/zounds/segment/onset.py
index eebcfe6..3906eb2 100644
--- a/zounds/segment/onset.py
+++ b/zounds/segment/onset.py
@@ -67,6 +67,9 @@ class ComplexDomain(Node):
         super(ComplexDomain, self).__init__(needs=needs)
 
     def _process(self, data):
+        td = data.dimensions[0]
+        data = np.asarray(data)
+
         # delta between expected and actual phase
         # TODO: unwrap phases before computing deltas, to avoid artifacts
         # or discontinuties from phase boundary wrapping
@@ -95,9 +98,7 @@ class ComplexDomain(Node):
              (2 * expected * actual * np.cos(angle))) ** 0.5)[
             nonzero_phase_delta_indices]
 
-        dims = \
-            [TimeDimension(data.frequency, data.duration // 3)] \
-            + data.dimensions[1:]
+        dims = [TimeDimension(td.frequency, td.duration // 3)]
         output = ArrayWithUnits(detect.sum(axis=1), dims)
         yield output
 
-- 
2.43.0


From 26a0f849e1bdab4666b198ea3ff9667f671ebfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 023/113] fix: mono is the average of the channels

---
 zounds/timeseries/audiosamples.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index e77be9f..4daec25 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -153,9 +153,8 @@ class AudioSamples(ArrayWithUnits):
         """
         if self.channels == 1:
             return self
-        x = self.sum(axis=1) * 0.5
-        y = x * 0.5
-        return AudioSamples(y, self.samplerate)
+        x = self.sum(axis=1) / self.channels
+        return AudioSamples(x, self.samplerate)
 
     @property
     def stereo(self):
-- 
2.43.0


From b200720a147d34ceace5d6878f5e14c94e4c9cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 024/113] fix: silence_like is silent

---
 zounds/timeseries/audiosamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 4daec25..61ee1ba 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -89,10 +89,8 @@ class AudioSamples(ArrayWithUnits):
         return cls(silence, samplerate)
 
     def silence_like(self, duration):
-        x = self.__class__.silence(
+        return self.__class__.silence(
             self.samplerate, duration, self.dtype, self.channels)
-        x[:] = 1
-        return x
 
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.__class__.silence(
-- 
2.43.0


From 4e371a01d048878d29a696d574f85a45ff8a573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 025/113] fix: stereo samples can be padded with silence

---
 zounds/timeseries/audiosamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 61ee1ba..30d2af8 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -94,7 +94,7 @@ class AudioSamples(ArrayWithUnits):
 
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.__class__.silence(
-            self.samplerate, silence_duration, self.dtype)
+            self.samplerate, silence_duration, self.dtype, self.channels)
         return AudioSamples(np.concatenate([self, silence]), self.samplerate)
 
     @property
-- 
2.43.0


From a1c93b8bf285cf568fbf79274cbd3bf6a55233e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 026/113] fix: a single sample of silence keeps its time axis

---
 zounds/timeseries/audiosamples.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 30d2af8..cf3a001 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -84,8 +84,9 @@ class AudioSamples(ArrayWithUnits):
 
     @classmethod
     def silence(cls, samplerate, duration, dtype=np.float32, channels=1):
-        shape = (int(duration / samplerate.frequency), channels)
-        silence = np.zeros(shape, dtype=dtype).squeeze()
+        n_samples = int(duration / samplerate.frequency)
+        shape = (n_samples,) if channels == 1 else (n_samples, channels)
+        silence = np.zeros(shape, dtype=dtype)
         return cls(silence, samplerate)
 
     def silence_like(self, duration):
-- 
2.43.0


From 6539e8af1f581631b66e017674ae63196f39e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 027/113] fix: stereo of samples with a channel axis of size
 one

---
 zounds/timeseries/audiosamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index cf3a001..2914399 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -159,7 +159,8 @@ class AudioSamples(ArrayWithUnits):
     def stereo(self):
         if self.channels == 2:
             return self
-        return AudioSamples(np.vstack([self, self]).T, self.samplerate)
+        raw = np.asarray(self)
+        return AudioSamples(np.column_stack([raw, raw]), self.samplerate)
 
     def __getitem__(self, item):
         sliced = super(AudioSamples, self).__getitem__(item)
-- 
2.43.0


From 679a7eafe2daff723fe688b98203cd9321196572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 028/113] fix: ogg files that arrive in several chunks are
 decoded completely

---
 zounds/soundfile/audiostream.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index 96b598f..5b429b7 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -71,6 +71,8 @@ class AudioStream(Node):
         self._sf = None
         self._chunk_size_samples = None
         self._cache = b''
+        self._bytes_received = 0
+        self._needs_all_bytes = False
 
     def _enqueue(self, data, pusher):
         self._cache += data
@@ -94,8 +96,17 @@ class AudioStream(Node):
         # TODO: Use the _first_chunk() hook instead of the if statement
         if self._buf is None:
             self._buf = MemoryBuffer(b.total_length)
+            # libsndfile only ever decodes the part of an ogg file that was
+            # available when the file was opened
+            self._needs_all_bytes = b[:4] == b'OggS'
 
         self._buf.write(b)
+        self._bytes_received += len(b)
+
+        if self._needs_all_bytes \
+                and not self._finalized \
+                and self._bytes_received < self._buf.total_length:
+            return
 
         if self._sf is None:
             self._sf = SoundFile(self._buf)
@@ -174,3 +185,7 @@ class MemoryBuffer(object):
 
     def flush(self):
         self._buf.flush()
+
+    @property
+    def total_length(self):
+        return self._content_length
-- 
2.43.0


From 8bc1a2b7006e65d958f5862986ee3648bbef3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 029/113] fix: the buffer of an audio stream keeps absolute
 positions when it drops bytes

---
 zounds/soundfile/audiostream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index 5b429b7..a4c4167 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -1,5 +1,5 @@
 from io import BytesIO
-from os import SEEK_END
+from os import SEEK_END, SEEK_SET
 from soundfile import SoundFile
 from zounds.timeseries import audio_sample_rate, AudioSamples
 from .byte_depth import chunk_size_samples
@@ -142,6 +142,8 @@ class MemoryBuffer(object):
         self._max_size = max_size
         self.tell = self._tell
 
+        # the position in the file of the first byte held by the buffer
+        self._start = 0
         self._total_bytes_written = 0
         self._total_bytes_read = 0
 
@@ -163,6 +165,7 @@ class MemoryBuffer(object):
             new_buf = BytesIO()
             new_buf.write(self._buf.read())
             self._buf = new_buf
+            self._start += read_pos
             read_pos = 0
         self._buf.seek(0, 2)
         self._buf.write(data)
@@ -170,7 +173,7 @@ class MemoryBuffer(object):
         return len(data)
 
     def _tell(self):
-        return self._buf.tell()
+        return self._start + self._buf.tell()
 
     def _tell_end(self):
         self.tell = self._tell
@@ -181,6 +184,8 @@ class MemoryBuffer(object):
             # KLUDGE: PySoundfile no longer supports __len__, which means that
             # this stateful garbage is required.
             self.tell = self._tell_end
+        elif whence == SEEK_SET:
+            offset -= self._start
         self._buf.seek(offset, whence)
 
     def flush(self):
-- 
2.43.0


From 72c67313ebe88d980fc2df106b6ed0df3925c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 030/113] fix: samples with a channel axis of size one can be
 padded with silence

---
 zounds/timeseries/audiosamples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 2914399..3282ae7 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -96,6 +96,7 @@ class AudioSamples(ArrayWithUnits):
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.__class__.silence(
             self.samplerate, silence_duration, self.dtype, self.channels)
+        silence = silence.reshape((len(silence),) + self.shape[1:])
         return AudioSamples(np.concatenate([self, silence]), self.samplerate)
 
     @property
-- 
2.43.0


From 244d054886a29d2a5714925395121175c03673aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 031/113] fix: spans and chunks of compressed audio do not
 drift, lose samples or fail beyond its end

---
 zounds/soundfile/ogg_vorbis.py | 50 ++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/zounds/soundfile/ogg_vorbis.py b/zounds/soundfile/ogg_vorbis.py
index fa7c83d..93ccd64 100644
--- a/zounds/soundfile/ogg_vorbis.py
+++ b/zounds/soundfile/ogg_vorbis.py
@@ -26,32 +26,46 @@ class OggVorbisWrapper(object):
         return len(self._sf) / self.samplerate
 
     def _n_samples(self, duration):
-        if duration is None:
-            return -1
         return int(duration / self._freq)
 
-    def __getitem__(self, timeslice):
-        sr = audio_sample_rate(self.samplerate)
+    def _read(self, start_sample, stop_sample):
+        """
+        Read the samples from start_sample up to stop_sample, or as many of them
+        as there are
+        """
+        start_sample = max(0, min(start_sample, len(self._sf)))
+        n_samples = max(0, min(stop_sample, len(self._sf)) - start_sample)
+        # seeking in compressed formats is costly, and inexact in some versions
+        # of libsndfile, so don't unless it's necessary
+        if self._sf.tell() != start_sample:
+            self._sf.seek(start_sample)
+        return AudioSamples(
+            self._sf.read(n_samples), audio_sample_rate(self.samplerate))
 
+    def __getitem__(self, timeslice):
         if timeslice == slice(None):
-            self._sf.seek(0)
-            return AudioSamples(self._sf.read(len(self._sf)), sr)
+            return self._read(0, len(self._sf))
 
-        start_sample = int(timeslice.start / self._freq)
-        n_samples = self._n_samples(timeslice.duration)
-
-        self._sf.seek(start_sample)
-        return AudioSamples(self._sf.read(n_samples), sr)
+        start_sample = self._n_samples(timeslice.start)
+        if timeslice.duration is None:
+            stop_sample = len(self._sf)
+        else:
+            # the end of the slice, and not its duration, is what's rounded, so
+            # that no sample is lost between slices that follow one another
+            stop_sample = self._n_samples(timeslice.end)
+        return self._read(start_sample, stop_sample)
 
     def iter_chunks(self):
-        chunksize = Seconds(1)
-        ts = TimeSlice(chunksize)
-        sl = self[ts]
-        yield sl
-        while len(sl) >= self._n_samples(chunksize):
-            ts += chunksize
-            sl = self[ts]
+        # count in samples: the sample period is rounded to picoseconds, so one
+        # second isn't exactly a whole number of periods
+        chunksize = self._n_samples(Seconds(1))
+        start_sample = 0
+        while True:
+            sl = self._read(start_sample, start_sample + chunksize)
             yield sl
+            start_sample += chunksize
+            if len(sl) < chunksize:
+                break
 
 
 class OggVorbisEncoder(IdentityEncoder):
-- 
2.43.0


From 1a6815dff4cdb01cad2cdcb0191f4ca47c706c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 032/113] fix: DCTIV computes a type IV discrete cosine
 transform

---
 zounds/spectral/spectral.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/spectral.py b/zounds/spectral/spectral.py
index 22ef1a6..b590b4c 100644
--- a/zounds/spectral/spectral.py
+++ b/zounds/spectral/spectral.py
@@ -109,8 +109,8 @@ class DCTIV(Node):
     def _process_raw(self, data):
         l = data.shape[1]
         tf = np.arange(0, l)
-        z = np.zeros((len(data), l * 2))
-        z[:, :l] = (data * np.exp(-1j * np.pi * tf / 2 / l)).real
+        z = np.zeros((len(data), l * 2), dtype=np.complex128)
+        z[:, :l] = data * np.exp(-1j * np.pi * tf / 2 / l)
         z = np.fft.fft(z)[:, :l]
         raw = np.sqrt(2 / l) * \
               (z * np.exp(-1j * np.pi * (tf + 0.5) / 2 / l)).real
-- 
2.43.0


From 1d7559db9bf1c8e2b3f5c08cd42107dfe5dc8ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 033/113] fix: sine waves of any frequency have as many samples
 as their duration asks for

---
 zounds/synthesize/synthesize.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zounds/synthesize/synthesize.py b/zounds/synthesize/synthesize.py
index 43e183b..3d319f2 100644
--- a/zounds/synthesize/synthesize.py
+++ b/zounds/synthesize/synthesize.py
@@ -555,10 +555,9 @@ class SineSynthesizer(object):
         """
         freqs = np.array(freqs_in_hz)
         scaling = 1 / len(freqs)
-        sr = int(self.samplerate)
-        cps = freqs / sr
-        ts = (duration / Seconds(1)) * sr
-        ranges = np.array([np.arange(0, ts * c, c) for c in cps])
+        cps = freqs / int(self.samplerate)
+        n_samples = int(duration / self.samplerate.frequency)
+        ranges = cps[:, None] * np.arange(n_samples)
         raw = (np.sin(ranges * (2 * np.pi)) * scaling).sum(axis=0)
         return AudioSamples(raw, self.samplerate)
 
-- 
2.43.0


From 9a16ee3472b8d8d2388ea3432a9950fc72e268af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 034/113] fix: noise and ticks do not lose their last sample to
 rounding

---
 zounds/synthesize/synthesize.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zounds/synthesize/synthesize.py b/zounds/synthesize/synthesize.py
index 3d319f2..e173f84 100644
--- a/zounds/synthesize/synthesize.py
+++ b/zounds/synthesize/synthesize.py
@@ -604,7 +604,7 @@ class TickSynthesizer(object):
         tick = np.random.uniform(low=-1., high=1., size=int(sr * .1))
         tick *= np.linspace(1, 0, len(tick))
         # create silence
-        samples = np.zeros(int(sr * (duration / Seconds(1))))
+        samples = np.zeros(int(duration / self.samplerate.frequency))
         ticks_per_second = Seconds(1) / tick_frequency
         # introduce periodic ticking sound
         step = int(sr // ticks_per_second)
@@ -647,9 +647,8 @@ class NoiseSynthesizer(object):
         Args:
             duration (numpy.timedelta64): The duration of the synthesized sound
         """
-        sr = self.samplerate.samples_per_second
-        seconds = duration / Seconds(1)
-        samples = np.random.uniform(low=-1., high=1., size=int(sr * seconds))
+        n_samples = int(duration / self.samplerate.frequency)
+        samples = np.random.uniform(low=-1., high=1., size=n_samples)
         return AudioSamples(samples, self.samplerate)
 
 
-- 
2.43.0


From 763d229904a08f4a8a0ee3172d678d2ae053fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 035/113] fix: features that store arrays of bits can be
 created

---
 zounds/persistence/arraywithunits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/persistence/arraywithunits.py b/zounds/persistence/arraywithunits.py
index 25877af..0a6e70e 100644
--- a/zounds/persistence/arraywithunits.py
+++ b/zounds/persistence/arraywithunits.py
@@ -118,7 +118,7 @@ class PackedArrayWithUnitsFeature(Feature):
             encoder=PackedArrayWithUnitsEncoder,
             decoder=ArrayWithUnitsDecoder(),
             **extractor_args):
-        super(ArrayWithUnitsFeature, self).__init__(
+        super(PackedArrayWithUnitsFeature, self).__init__(
                 extractor,
                 needs=needs,
                 store=store,
-- 
2.43.0


From 57d77a37319c9d8c898decba3ef3f0e93c5aeafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 036/113] fix: negative durations can be stored

---
 zounds/persistence/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/persistence/util.py b/zounds/persistence/util.py
index 43af291..9798e00 100644
--- a/zounds/persistence/util.py
+++ b/zounds/persistence/util.py
@@ -9,13 +9,13 @@ TIMEDELTA_DTYPE_RE = re.compile(r'\[(?P<dtype>[^\]]+)\]')
 def encode_timedelta(td):
     dtype = TIMEDELTA_DTYPE_RE.search(str(td.dtype)).groupdict()['dtype']
     # base64 encoded value, encoded as a utf-8
-    encoded = base64.b64encode(td.astype(np.uint64).tostring()).decode()
+    encoded = base64.b64encode(td.astype(np.int64).tostring()).decode()
     return encoded, dtype
 
 
 def decode_timedelta(t):
     try:
-        v = np.frombuffer(base64.b64decode(t[0]), dtype=np.uint64)[0]
+        v = np.frombuffer(base64.b64decode(t[0]), dtype=np.int64)[0]
         s = t[1]
         return np.timedelta64(int(v), s)
     except IndexError:
-- 
2.43.0


From 0e13b60dd9e9f5b26e93f7d7127a885556a544f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 037/113] fix: open-ended time slices can be stored

---
 zounds/persistence/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zounds/persistence/util.py b/zounds/persistence/util.py
index 9798e00..d40790b 100644
--- a/zounds/persistence/util.py
+++ b/zounds/persistence/util.py
@@ -7,6 +7,9 @@ TIMEDELTA_DTYPE_RE = re.compile(r'\[(?P<dtype>[^\]]+)\]')
 
 
 def encode_timedelta(td):
+    if td is None:
+        # e.g., the duration of an open-ended time slice
+        return None
     dtype = TIMEDELTA_DTYPE_RE.search(str(td.dtype)).groupdict()['dtype']
     # base64 encoded value, encoded as a utf-8
     encoded = base64.b64encode(td.astype(np.int64).tostring()).decode()
@@ -14,6 +17,8 @@ def encode_timedelta(td):
 
 
 def decode_timedelta(t):
+    if t is None:
+        return None
     try:
         v = np.frombuffer(base64.b64decode(t[0]), dtype=np.int64)[0]
         s = t[1]
-- 
2.43.0


From e0a79b35b39f5d05191a43907d127883aab822a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 038/113] fix: HammingDb checks the size of encoded codes and
 indexes entries only once they are stored

---
 zounds/index/hammingdb.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 4576b7f..0915e9f 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -138,22 +138,23 @@ class HammingDb(object):
     def _new_id(self):
         return binascii.hexlify(os.urandom(16))
 
+    def _encode(self, value):
+        try:
+            return value.encode()
+        except AttributeError:
+            return value
+
     def append(self, code, data):
+        code, data = self._encode(code), self._encode(data)
         self._validate_code_size(code)
         self._initialize_in_memory_store()
 
+        _id = self._new_id()
         with self.env.begin(write=True) as txn:
-            _id = self._new_id()
-            try:
-                code = code.encode()
-            except AttributeError:
-                pass
-            try:
-                data = data.encode()
-            except AttributeError:
-                pass
             txn.put(_id, code + data, db=self.index)
-            self._add_code(_id, code)
+
+        # only entries that have been stored may be found by searches
+        self._add_code(_id, code)
 
     def _random_code(self):
         with self.env.begin() as txn:
-- 
2.43.0


From aacecc38ca018c069d989d1138fc3d7a79406417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 039/113] fix: a HammingDb can be searched by one thread while
 another appends

---
 zounds/index/hammingdb.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 0915e9f..0f4d82a 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -3,6 +3,7 @@ from zounds.nputil import Growable, packed_hamming_distance
 import numpy as np
 from multiprocessing.dummy import Pool as ThreadPool
 from multiprocessing import cpu_count
+from threading import RLock
 import os
 import binascii
 
@@ -45,10 +46,9 @@ class HammingDb(object):
 
         self.index = self.env.open_db(b'index')
         self._append_buffer = self._recarray(1)
-        self._code_bytearray = bytearray(b'a' * self.code_size)
-        self._code_buffer = np.frombuffer(self._code_bytearray, dtype=np.uint64)
         self._codes = None
         self._ids = set()
+        self._lock = RLock()
         self._catch_up_on_in_memory_store()
 
         self._thread_count = cpu_count()
@@ -111,8 +111,9 @@ class HammingDb(object):
         self._codes = Growable(self._recarray(initial_size))
 
     def _np_code(self, code):
-        self._code_bytearray[:] = code
-        return self._code_buffer
+        # each code has its own memory, since entries may be added while
+        # another thread is searching
+        return np.frombuffer(bytearray(code), dtype=np.uint64)
 
     def _validate_code_size(self, code):
         code_len = len(code)
@@ -125,11 +126,15 @@ class HammingDb(object):
         if self.writeonly:
             return
 
-        arr = self._append_buffer
-        arr[0]['id'] = _id
-        arr[0]['code'] = self._np_code(code)
-        self._codes.append(arr)
-        self._ids.add(_id)
+        with self._lock:
+            if _id in self._ids:
+                # a search in another thread has found this entry already
+                return
+            arr = self._append_buffer
+            arr[0]['id'] = _id
+            arr[0]['code'] = self._np_code(code)
+            self._codes.append(arr)
+            self._ids.add(_id)
 
     def _check_for_external_modifications(self):
         if self.__len__() != self._codes.logical_size:
@@ -180,7 +185,8 @@ class HammingDb(object):
         self._check_for_external_modifications()
         query = self._np_code(code)
 
-        codes = self._codes.logical_data['code']
+        entries = self._codes.logical_data
+        codes = entries['code']
 
         if codes.ndim == 1:
             codes = codes[..., None]
@@ -212,7 +218,7 @@ class HammingDb(object):
             # particular order
             indices = partitioned_indices
 
-        nearest = self._codes.logical_data[indices]['id']
+        nearest = entries[indices]['id']
 
         with self.env.begin() as txn:
             for _id in nearest:
-- 
2.43.0


From 117b9f659461907772f74ade3ccb6ba72686e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 040/113] fix: HammingDb searches for more results than there
 are codes, with text, or in an empty database

---
 zounds/index/hammingdb.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 0f4d82a..eb0467b 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -162,6 +162,9 @@ class HammingDb(object):
         self._add_code(_id, code)
 
     def _random_code(self):
+        if not len(self):
+            raise ValueError('there are no codes to choose from')
+
         with self.env.begin() as txn:
             with txn.cursor(self.index) as cursor:
                 code = None
@@ -181,6 +184,7 @@ class HammingDb(object):
             error_msg = 'searches may not be performed in writeonly mode'
             raise RuntimeError(error_msg)
 
+        code = self._encode(code)
         self._validate_code_size(code)
         self._check_for_external_modifications()
         query = self._np_code(code)
@@ -188,6 +192,9 @@ class HammingDb(object):
         entries = self._codes.logical_data
         codes = entries['code']
 
+        if not len(codes):
+            return
+
         if codes.ndim == 1:
             codes = codes[..., None]
 
@@ -204,7 +211,12 @@ class HammingDb(object):
         # argpartition will ensure that the lowest scores will all be
         # withing the first n_results elements, but makes no guarantees
         # about the ordering *within* n_results
-        partitioned_indices = np.argpartition(scores, n_results)[:n_results]
+        if n_results < len(scores):
+            partitioned_indices = \
+                np.argpartition(scores, n_results)[:n_results]
+        else:
+            # there are no more codes than results asked for
+            partitioned_indices = np.arange(len(scores))
 
         if sort:
             # since argpartition doesn't guarantee that the results are
-- 
2.43.0


From 67772b6c84c74ebd3a1f40878c1f04ae252a7ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 041/113] fix: closing a HammingDb breaks other instances for
 the same path

---
 zounds/index/hammingdb.py | 48 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index eb0467b..84c6da2 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -8,6 +8,48 @@ import os
 import binascii
 
 
+class SharedEnvironment(object):
+    """
+    LMDB doesn't allow a process to open the same environment more than once,
+    and closing one of them would break the others.  All instances in this
+    process that use the same database share a single environment, which is
+    closed along with the last one of them.
+    """
+
+    _environments = dict()
+    _lock = RLock()
+
+    def __init__(self, path, **kwargs):
+        super(SharedEnvironment, self).__init__()
+        with self._lock:
+            self.key = self._key(path)
+            env, count = self._environments.get(self.key, (None, 0))
+            if env is None:
+                env = lmdb.open(path, **kwargs)
+                self.key = self._key(path)
+            self._environments[self.key] = (env, count + 1)
+        self.env = env
+
+    def _key(self, path):
+        try:
+            stat = os.stat(os.path.join(path, 'data.mdb'))
+        except OSError:
+            # the environment doesn't exist yet
+            return None
+        return os.getpid(), stat.st_dev, stat.st_ino
+
+    def close(self):
+        with self._lock:
+            if self.env is None:
+                return
+            self.env = None
+            env, count = self._environments.pop(self.key)
+            if count > 1:
+                self._environments[self.key] = (env, count - 1)
+            else:
+                env.close()
+
+
 class HammingDb(object):
     def __init__(self, path, map_size=1000000000, code_size=8, writeonly=False):
         super(HammingDb, self).__init__()
@@ -18,13 +60,14 @@ class HammingDb(object):
             os.makedirs(path)
 
         self.path = path
-        self.env = lmdb.open(
+        self._shared_env = SharedEnvironment(
             self.path,
             max_dbs=10,
             map_size=map_size,
             writemap=True,
             map_async=True,
             metasync=True)
+        self.env = self._shared_env.env
         self.env.reader_check()
 
         self.metadata = self.env.open_db(b'metadata')
@@ -55,7 +98,8 @@ class HammingDb(object):
         self._pool = ThreadPool(processes=self._thread_count)
 
     def close(self):
-        self.env.close()
+        self.env = None
+        self._shared_env.close()
 
     def __del__(self):
         self.close()
-- 
2.43.0


From c2009d745459f05df8f93b80723ee6ac29b3a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 042/113] fix: a HammingIndex resumes listening where it left
 off, and accepts live events

---
 zounds/index/index.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 9addb8d..43420a7 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -138,14 +138,15 @@ class HammingIndex(object):
                 encoded_ts['extra_data'] = extra_data
             self._init_hamming_db(code)
             self.hamming_db.append(code, json.dumps(encoded_ts))
-            self.hamming_db.set_metadata(b'timestamp', timestamp)
+            if timestamp:
+                self.hamming_db.set_metadata(b'timestamp', timestamp)
 
     def _listen(self, raise_when_empty=False):
 
         if self.hamming_db is not None:
-            last_timestamp = self.hamming_db.get_metadata('timestamp') or ''
+            last_timestamp = self.hamming_db.get_metadata(b'timestamp') or b''
         else:
-            last_timestamp = ''
+            last_timestamp = b''
 
         if not self.event_log:
             raise ValueError(
@@ -157,6 +158,11 @@ class HammingIndex(object):
 
         for timestamp, data in subscription:
 
+            try:
+                timestamp = timestamp.encode()
+            except AttributeError:
+                pass
+
             # parse the data from the event stream
             data = json.loads(data)
             _id, name, version = data['_id'], data['name'], data['version']
-- 
2.43.0


From 61bf4032b05eef23cfbe9c1e6b4e5f16bbbd96c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 043/113] fix: a HammingIndex contains each document exactly
 once, however indexing is interrupted

---
 zounds/index/hammingdb.py | 29 ++++++++++++++++++++++++-----
 zounds/index/index.py     | 19 +++++++++++++++----
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 84c6da2..bf727d8 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -194,16 +194,35 @@ class HammingDb(object):
             return value
 
     def append(self, code, data):
-        code, data = self._encode(code), self._encode(data)
-        self._validate_code_size(code)
+        self.append_all([(code, data)])
+
+    def append_all(self, entries, metadata=None, unless=None):
+        """
+        Append all entries and set all metadata or, if anything goes wrong, none
+        of it
+
+        :param entries: a list of tuples of (code, data)
+        :param metadata: a dictionary of metadata keys and values to set
+        :param unless: a metadata key.  When it has been set already, the
+            entries are not appended
+        """
+        entries = [(self._encode(c), self._encode(d)) for c, d in entries]
+        for code, _ in entries:
+            self._validate_code_size(code)
         self._initialize_in_memory_store()
 
-        _id = self._new_id()
+        entries = [(self._new_id(), code, data) for code, data in entries]
         with self.env.begin(write=True) as txn:
-            txn.put(_id, code + data, db=self.index)
+            if unless and txn.get(unless, db=self.metadata) is not None:
+                entries = []
+            for _id, code, data in entries:
+                txn.put(_id, code + data, db=self.index)
+            for key, value in (metadata or dict()).items():
+                txn.put(key, value, db=self.metadata)
 
         # only entries that have been stored may be found by searches
-        self._add_code(_id, code)
+        for _id, code, _ in entries:
+            self._add_code(_id, code)
 
     def _random_code(self):
         if not len(self):
diff --git a/zounds/index/index.py b/zounds/index/index.py
index 43420a7..7516a18 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -1,6 +1,7 @@
 import ujson as json
 import os
 import threading
+from hashlib import sha1
 import numpy as np
 from .hammingdb import HammingDb
 from zounds.persistence import TimeSliceEncoder, TimeSliceDecoder
@@ -128,6 +129,7 @@ class HammingIndex(object):
             arr = feature
 
         # extract codes and timeslices from the feature
+        entries = []
         for ts, data in arr.iter_slices():
             code = self.encode_query(data)
             encoded_ts = dict(
@@ -136,10 +138,19 @@ class HammingIndex(object):
             extra_data = self._collect_extra_data(_id, ts)
             if extra_data:
                 encoded_ts['extra_data'] = extra_data
-            self._init_hamming_db(code)
-            self.hamming_db.append(code, json.dumps(encoded_ts))
-            if timestamp:
-                self.hamming_db.set_metadata(b'timestamp', timestamp)
+            entries.append((code, json.dumps(encoded_ts)))
+
+        if not entries:
+            return
+
+        # store the whole document or, if something goes wrong, nothing, and
+        # never store the same document again
+        document_key = b'document:' + sha1(_id.encode()).hexdigest().encode()
+        metadata = {document_key: _id.encode()}
+        if timestamp:
+            metadata[b'timestamp'] = timestamp
+        self._init_hamming_db(entries[0][0])
+        self.hamming_db.append_all(entries, metadata, unless=document_key)
 
     def _listen(self, raise_when_empty=False):
 
-- 
2.43.0


From 586bb7849cfd7e4f098dbe34c2ce94a2a7873194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 044/113] fix: HammingIndex uses the database size asked for

---
 zounds/index/index.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 7516a18..c96adeb 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -53,7 +53,10 @@ class HammingIndex(object):
 
         try:
             self.hamming_db = HammingDb(
-                self.hamming_db_path, code_size=None, writeonly=self.writeonly)
+                self.hamming_db_path,
+                map_size=self.db_size_bytes,
+                code_size=None,
+                writeonly=self.writeonly)
         except ValueError:
             self.hamming_db = None
 
@@ -102,7 +105,10 @@ class HammingIndex(object):
             return
         code_size = len(code) if code else None
         self.hamming_db = HammingDb(
-            self.hamming_db_path, code_size=code_size, writeonly=self.writeonly)
+            self.hamming_db_path,
+            map_size=self.db_size_bytes,
+            code_size=code_size,
+            writeonly=self.writeonly)
 
     def _synchronously_process_events(self):
         self._listen(raise_when_empty=True)
-- 
2.43.0


From 2abfb1fd3d9fce6157f4327d8b823c96abd4f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 045/113] fix: a HammingIndex counts what another instance has
 added since

---
 zounds/index/index.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index c96adeb..28d719c 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -89,7 +89,11 @@ class HammingIndex(object):
 
     def __len__(self):
         if self.hamming_db is None:
-            return 0
+            try:
+                # another instance may have added documents in the meantime
+                self._init_hamming_db()
+            except ValueError:
+                return 0
         return len(self.hamming_db)
 
     def stop(self):
-- 
2.43.0


From 71e94a6c74cd215071116cb1445c9c5c0e3b7edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 046/113] fix: a HammingIndex accepts ids that are numbers

---
 zounds/index/index.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 28d719c..7de4690 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -155,8 +155,9 @@ class HammingIndex(object):
 
         # store the whole document or, if something goes wrong, nothing, and
         # never store the same document again
-        document_key = b'document:' + sha1(_id.encode()).hexdigest().encode()
-        metadata = {document_key: _id.encode()}
+        encoded_id = str(_id).encode()
+        document_key = b'document:' + sha1(encoded_id).hexdigest().encode()
+        metadata = {document_key: encoded_id}
         if timestamp:
             metadata[b'timestamp'] = timestamp
         self._init_hamming_db(entries[0][0])
-- 
2.43.0


From 6b603836be6abdec72eea54b52cca408c257e28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 047/113] fix: a HammingIndex can listen to an event log which
 is still empty

---
 zounds/index/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 7de4690..0f5b5f1 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -170,7 +170,7 @@ class HammingIndex(object):
         else:
             last_timestamp = b''
 
-        if not self.event_log:
+        if self.event_log is None:
             raise ValueError(
                 '{self.document} must have an event log configured'
                     .format(**locals()))
-- 
2.43.0


From d35f4aa0a052444fa388da8c8c608a58657a3fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:35 +0000
Subject: [PATCH 048/113] fix: a growable array makes room for an item wherever
 it is added, and broadcasts the items of an extension one by one

---
 zounds/nputil/npx.py | 45 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index ff7776b..c3e69b8 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -329,16 +329,30 @@ class Growable(object):
         new_mem = self._tmp(amt=amt)
         self._data = np.concatenate([self._data, new_mem])
 
+    def _ensure(self, n_items):
+        """
+        make sure there's physical memory for n_items more items
+        """
+        pos = self.logical_size + n_items
+        if pos > self.physical_size:
+            # more physical memory is needed than has been allocated so far
+            amt = self._tmp_size()
+            if self.physical_size + amt < pos:
+                # growing the memory by the prescribed amount still won't
+                # make enough room. Allocate exactly as much memory as is needed
+                # to accommodate items
+                amt = pos - self.physical_size
+
+            # actually grow the array
+            self._grow(amt=amt)
+
     def append(self, item):
         """
         append a single item to the array, growing the wrapped numpy array
         if necessary
         """
-        try:
-            self._data[self._position] = item
-        except IndexError:
-            self._grow()
-            self._data[self._position] = item
+        self._ensure(1)
+        self._data[self._position] = item
         self._position += 1
         return self
 
@@ -348,19 +362,14 @@ class Growable(object):
         if necessary
         """
         items = np.array(items)
-        pos = items.shape[0] + self.logical_size
-        if pos > self.physical_size:
-            # more physical memory is needed than has been allocated so far
-            amt = self._tmp_size()
-            if self.physical_size + amt < pos:
-                # growing the memory by the prescribed amount still won't 
-                # make enough room. Allocate exactly as much memory as is needed
-                # to accommodate items
-                amt = pos - self.physical_size
-
-            # actually grow the array
-            self._grow(amt=amt)
-
+        # an item may have fewer dimensions than the items of this array, in
+        # which case it's broadcast, just as it is when it's appended
+        missing = self._data.ndim - items.ndim
+        if items.ndim and missing > 0:
+            items = items.reshape(
+                items.shape[:1] + (1,) * missing + items.shape[1:])
+
+        self._ensure(items.shape[0])
         stop = self._position + items.shape[0]
         self._data[self._position: stop] = items
         self._position += items.shape[0]
-- 
2.43.0


From d2e065261eca3f3bcc558f4484a3f10024d45400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 049/113] fix: ReservoirSampler keeps every sample of the
 stream with the same probability

---
 zounds/learn/random_samples.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index fcf2e01..3e8c92c 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -260,9 +260,13 @@ class ReservoirSampler(Node):
         remaining = len(data[diff:])
         if not remaining:
             return
-        indices = np.random.random_integers(0, self._index, size=remaining)
-        indices = indices[indices < self._nsamples]
-        self._r[indices, ...] = data[diff:][list(range(len(indices)))]
+        # the nth sample of the stream is kept with probability nsamples / n,
+        # and replaces one of the samples held so far
+        seen = np.arange(self._index + 1, self._index + remaining + 1)
+        indices = np.random.randint(0, seen)
+        keep = np.flatnonzero(indices < self._nsamples)
+        if len(keep):
+            self._r[indices[keep], ...] = data[diff + keep]
         self._index += remaining
 
     def _dequeue(self):
-- 
2.43.0


From ee01e0ac6e7c1fc3eaa557f36abcdd10d8d5efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 050/113] fix: a refused offer leaves a reservoir unchanged,
 concurrent offers keep its keys aligned, and it hands out copies

---
 zounds/learn/random_samples.py | 73 ++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index 3e8c92c..1c28daf 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -3,6 +3,7 @@ from zounds.core import ArrayWithUnits, IdentityDimension
 import numpy as np
 from multiprocessing.pool import ThreadPool
 from os import cpu_count
+from threading import RLock
 
 
 class Reservoir(object):
@@ -19,6 +20,7 @@ class Reservoir(object):
         self.arr = None
         self.indices = set()
         self.dtype = dtype
+        self._lock = RLock()
 
     def __len__(self):
         return len(self.indices)
@@ -40,26 +42,41 @@ class Reservoir(object):
             pass
 
     def add(self, samples, indices=None):
-        self._init_arr(samples)
+        with self._lock:
+            if indices is None:
+                indices = np.random.randint(0, self.nsamples, len(samples))
 
-        if indices is None:
-            indices = np.random.randint(0, self.nsamples, len(samples))
+            self._check(samples, indices)
+            self._init_arr(samples)
+            self.arr[indices, ...] = samples
+            self.indices.update(indices)
 
+    def _check(self, samples, indices):
+        """
+        Raise if these samples can't be added, before anything is changed
+        """
         if len(indices) != len(samples):
             raise ValueError(
                 'number of input samples and indices must match'
                 ' but they were {samples} and {indices} respectively'
                     .format(samples=len(samples), indices=len(indices)))
 
-        self.arr[indices, ...] = samples
-        self.indices.update(indices)
+        if len(indices) and \
+                not 0 <= min(indices) <= max(indices) < self.nsamples:
+            raise IndexError(
+                'indices must be between 0 and {nsamples}'
+                    .format(nsamples=self.nsamples))
 
-    def get(self):
-        if len(self.indices) == self.nsamples:
-            return self.arr
+        if self.arr is not None and samples.shape[1:] != self.arr.shape[1:]:
+            raise ValueError(
+                'samples must have shape {expected}, but had shape {actual}'
+                    .format(
+                    expected=self.arr.shape[1:], actual=samples.shape[1:]))
 
-        x = self.arr[sorted(self.indices), ...]
-        return x
+    def get(self):
+        with self._lock:
+            # this is always a copy, i.e., it won't change as samples are added
+            return self.arr[sorted(self.indices), ...]
 
     def get_batch(self, batch_size):
         if batch_size > self.nsamples:
@@ -77,10 +94,11 @@ class Reservoir(object):
                     n=len(self.indices),
                     nsamples=self.nsamples))
 
-        # TODO: this would be much more efficient for repeated calls if I
-        # instead maintained a sorted set
-        indices = np.random.choice(list(self.indices), batch_size)
-        return self.arr[indices, ...]
+        with self._lock:
+            # TODO: this would be much more efficient for repeated calls if I
+            # instead maintained a sorted set
+            indices = np.random.choice(list(self.indices), batch_size)
+            return self.arr[indices, ...]
 
 
 class MultiplexedReservoir(object):
@@ -89,6 +107,7 @@ class MultiplexedReservoir(object):
         self.dtype = dtype
         self.reservoir = None
         self.nsamples = nsamples
+        self._lock = RLock()
 
     def _init_dict(self, samples):
         if self.reservoir is not None:
@@ -106,18 +125,28 @@ class MultiplexedReservoir(object):
                     .format(keys=list(self.reservoir.keys())))
 
     def add(self, samples):
-        self._init_dict(samples)
-        self._check_sample_keys(samples)
+        with self._lock:
+            if self.reservoir is not None:
+                self._check_sample_keys(samples)
 
-        indices = None
-        for k, v in samples.items():
-            if indices is None:
-                indices = np.random.randint(0, self.nsamples, len(v))
+            indices = None
+            for k, v in samples.items():
+                if indices is None:
+                    indices = np.random.randint(0, self.nsamples, len(v))
+
+                # make sure that the samples of every key can be added before
+                # adding any of them
+                reservoir = Reservoir(self.nsamples, dtype=self.dtype) \
+                    if self.reservoir is None else self.reservoir[k]
+                reservoir._check(v, indices)
 
-            self.reservoir[k].add(v, indices=indices)
+            self._init_dict(samples)
+            for k, v in samples.items():
+                self.reservoir[k].add(v, indices=indices)
 
     def get(self):
-        return dict((k, v.get()) for k, v in self.reservoir.items())
+        with self._lock:
+            return dict((k, v.get()) for k, v in self.reservoir.items())
 
 
 class ShuffledSamples(Node):
-- 
2.43.0


From 32244ee190840aada642dfaf86eea353cad50b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 051/113] fix: normalizing features that never vary, or
 examples that are zero, no longer returns uninitialized memory

---
 zounds/learn/functional.py | 3 ++-
 zounds/learn/preprocess.py | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/zounds/learn/functional.py b/zounds/learn/functional.py
index 9cda320..0f4a293 100644
--- a/zounds/learn/functional.py
+++ b/zounds/learn/functional.py
@@ -27,7 +27,8 @@ def example_wise_unit_norm(x, return_norms=False):
     # other axes as features
     x = x.reshape((len(x), -1))
     norms = np.linalg.norm(x, axis=-1, keepdims=True)
-    normed = np.divide(x, norms, where=norms != 0)
+    # examples that are entirely zero stay that way
+    normed = x / np.where(norms != 0, norms, 1)
     normed = normed.reshape(original_shape)
 
     if return_norms:
diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 576bb75..02be413 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -426,14 +426,16 @@ class MeanStdNormalization(Preprocessor):
     def _forward_func(self):
         def x(d, mean=None, std=None):
             import numpy as np
-            return np.divide(d - mean, std, where=std != 0)
+            # features that never vary are not scaled
+            return (d - mean) / np.where(std != 0, std, 1)
 
         return x
 
     def _backward_func(self):
         def x(d, mean=None, std=None):
+            import numpy as np
             arr = d.copy()
-            arr *= std
+            arr *= np.where(std != 0, std, 1)
             arr += mean
             return arr
 
@@ -469,7 +471,8 @@ class InstanceScaling(Preprocessor):
             # TODO: it should be possible to hand this intermediate value off
             # to inversion data, and to ignore the extra
             m = np.max(np.abs(d), axis=axes, keepdims=True)
-            output = max_value * np.divide(d, m, where=m != 0)
+            # examples that are entirely zero stay that way
+            output = max_value * (d / np.where(m != 0, m, 1))
             return ForwardResult(output, max=m, max_value=max_value)
 
         return x
-- 
2.43.0


From 07637ddadb8e7cd88deda3e8e6126361f08bd963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 052/113] fix: learned steps accept data with no examples

---
 zounds/learn/functional.py           | 4 ++--
 zounds/learn/sklearn_preprocessor.py | 8 +++++---
 zounds/learn/util.py                 | 2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/zounds/learn/functional.py b/zounds/learn/functional.py
index 0f4a293..aba2980 100644
--- a/zounds/learn/functional.py
+++ b/zounds/learn/functional.py
@@ -14,7 +14,7 @@ def hyperplanes(means, stds, n_planes):
 
 def simhash(plane_vectors, data):
     output = np.zeros((len(data), len(plane_vectors)), dtype=np.uint8)
-    flattened = data.reshape((len(data), -1))
+    flattened = data.reshape((len(data), int(np.prod(data.shape[1:]))))
     x = np.dot(plane_vectors, flattened.T).T
     output[np.where(x > 0)] = 1
     return output
@@ -25,7 +25,7 @@ def example_wise_unit_norm(x, return_norms=False):
 
     # flatten all dimensions of x, treating the first axis as examples and all
     # other axes as features
-    x = x.reshape((len(x), -1))
+    x = x.reshape((len(x), int(np.prod(x.shape[1:]))))
     norms = np.linalg.norm(x, axis=-1, keepdims=True)
     # examples that are entirely zero stay that way
     normed = x / np.where(norms != 0, norms, 1)
diff --git a/zounds/learn/sklearn_preprocessor.py b/zounds/learn/sklearn_preprocessor.py
index a12efa9..9c9dec1 100644
--- a/zounds/learn/sklearn_preprocessor.py
+++ b/zounds/learn/sklearn_preprocessor.py
@@ -8,8 +8,10 @@ class SklearnModel(Preprocessor):
 
     def _forward_func(self):
         def x(d, model=None):
+            import numpy as np
             from zounds.core import ArrayWithUnits, IdentityDimension
-            transformed = model.transform(d.reshape((d.shape[0], -1)))
+            n_features = int(np.prod(d.shape[1:]))
+            transformed = model.transform(d.reshape((d.shape[0], n_features)))
             try:
                 return ArrayWithUnits(
                     transformed, (d.dimensions[0], IdentityDimension()))
@@ -20,7 +22,7 @@ class SklearnModel(Preprocessor):
 
     def _backward_func(self):
         def x(d, model=None, shape=None):
-            return model.inverse_transform(d).reshape((-1,) + shape)
+            return model.inverse_transform(d).reshape(d.shape[:1] + shape)
 
         return x
 
@@ -48,5 +50,5 @@ class WithComponents(SklearnModel):
     def _backward_func(self):
         def x(d, model=None, shape=None):
             import numpy as np
-            return np.dot(d, model.components_).reshape((-1,) + shape)
+            return np.dot(d, model.components_).reshape(d.shape[:1] + shape)
         return x
diff --git a/zounds/learn/util.py b/zounds/learn/util.py
index c653614..ebd70b0 100644
--- a/zounds/learn/util.py
+++ b/zounds/learn/util.py
@@ -106,7 +106,7 @@ def apply_network(network, x, chunksize=None):
 
         return np.concatenate(
             [from_var(network(x[i: i + chunksize]))
-             for i in range(0, len(x), chunksize)])
+             for i in range(0, max(1, len(x)), chunksize)])
 
 
 def sample_norm(x):
-- 
2.43.0


From caaee4be107070c696f7a657c4ba5287fbf80b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 053/113] fix: undoing a preprocessor without an inverse raises
 NotImplementedError

---
 zounds/learn/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 02be413..9f75b89 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -213,7 +213,7 @@ class BasePreprocessor(Preprocessor):
     def __init__(self, forward=None, backward=None, name=None, needs=None):
         super(BasePreprocessor, self).__init__(needs=needs)
 
-        def not_implemented():
+        def not_implemented(*args, **kwargs):
             raise NotImplementedError()
 
         self.forward = forward
-- 
2.43.0


From dc7982301008f85c7a74de4f440aebbbd2a480e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 054/113] fix: a reloaded pytorch step keeps what its inverse
 needs, and failing to apply a network is a warning

---
 zounds/learn/pytorch_model.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/zounds/learn/pytorch_model.py b/zounds/learn/pytorch_model.py
index 23040b9..a342140 100644
--- a/zounds/learn/pytorch_model.py
+++ b/zounds/learn/pytorch_model.py
@@ -27,10 +27,15 @@ class PyTorchPreprocessResult(PreprocessResult):
         kwargs = dict(self.op.kwargs)
         del kwargs['network']
 
+        inv_data_kwargs = dict(self.inversion_data.kwargs)
+        inv_data_network = inv_data_kwargs.pop('network', None) is not None
+
         return dict(
             forward_func=forward_func,
             op_kwargs=kwargs,
             inv_data_func=inv_data_func,
+            inv_data_kwargs=inv_data_kwargs,
+            inv_data_network=inv_data_network,
             backward_func=backward_func,
             weights=weights,
             name=name,
@@ -62,7 +67,10 @@ class PyTorchPreprocessResult(PreprocessResult):
             network=network,
             **state['op_kwargs'])
 
-        self.inversion_data = Op(state['inv_data_func'], network=network)
+        inv_data_kwargs = dict(state.get('inv_data_kwargs', {}))
+        if state.get('inv_data_network', True):
+            inv_data_kwargs['network'] = network
+        self.inversion_data = Op(state['inv_data_func'], **inv_data_kwargs)
         self.inverse = Op(state['backward_func'])
         self.name = state['name']
 
@@ -154,7 +162,7 @@ class PyTorchNetwork(Preprocessor):
         except RuntimeError as e:
             processed_data = None
             # the dataset may be too large to fit onto the GPU all at once
-            warnings.warn(e.message)
+            warnings.warn(str(e))
 
         op = self.transform(
             network=trained_network, chunk_size=self.trainer.batch_size)
@@ -227,7 +235,7 @@ class PyTorchGan(PyTorchNetwork):
         except RuntimeError as e:
             processed_data = None
             # the dataset may be too large to fit onto the GPU all at once
-            warnings.warn(e.message)
+            warnings.warn(str(e))
 
         op = self.transform(network=network, apply_network=self.apply_network)
         inv_data = self.inversion_data()
@@ -292,7 +300,7 @@ class PyTorchAutoEncoder(PyTorchNetwork):
                 processed_data = forward_func(inp, network=trained_network)
             except RuntimeError as e:
                 processed_data = None
-                warnings.warn(e.message)
+                warnings.warn(str(e))
                 # we've just experienced an out of memory exception.  Cut the
                 # size of the input data in half, so that downstream nodes that
                 # need some data to initialize themselves can do so
-- 
2.43.0


From b9b48bf705ac7189a131520c0011b8d3987e2295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 055/113] fix: Sharpen accepts data with no examples

---
 zounds/learn/preprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 9f75b89..f50ffd8 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -599,7 +599,9 @@ class Sharpen(Preprocessor):
         def x(d, kernel=None):
             from scipy.signal import convolve
             from zounds.core import ArrayWithUnits
-            data = convolve(d, kernel[None, ...], mode='same')
+            # there's nothing to convolve when there are no examples
+            data = convolve(d, kernel[None, ...], mode='same') \
+                if d.size else d.copy()
             data[data < 0] = 0
             try:
                 return ArrayWithUnits(data, d.dimensions)
-- 
2.43.0


From 1ceee71db28d08b191ec9a15d5cb5716f118f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 056/113] fix: the version of a learned step depends on its
 content only

---
 zounds/learn/preprocess.py    | 142 ++++++++++++++++++++++++++++++++--
 zounds/learn/pytorch_model.py |   4 +
 2 files changed, 140 insertions(+), 6 deletions(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index f50ffd8..7e88e4f 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -8,6 +8,138 @@ from .functional import hyperplanes
 from zounds.loudness import log_modulus, inverse_log_modulus
 
 
+def _leaf(tag, *parts):
+    h = hashlib.md5(tag.encode())
+    for part in parts:
+        if not isinstance(part, bytes):
+            part = str(part).encode('utf-8', 'surrogatepass')
+        h.update(b'%d:' % len(part))
+        h.update(part)
+    return h.digest()
+
+
+def _code_fingerprint(code, path=()):
+    """
+    Identify code by what it does, and neither by where it was defined, nor by
+    how it happened to be serialized
+    """
+    return _leaf(
+        'code',
+        code.co_code,
+        _fingerprint(code.co_consts, path),
+        code.co_names,
+        code.co_varnames,
+        code.co_freevars,
+        code.co_cellvars,
+        code.co_argcount,
+        code.co_kwonlyargcount,
+        code.co_flags)
+
+
+def _qualified_name(x):
+    return '{module}.{name}'.format(
+        module=getattr(x, '__module__', ''),
+        name=getattr(x, '__qualname__', getattr(x, '__name__', '')))
+
+
+def _fingerprint(value, path=()):
+    """
+    Compute a digest of the content of a value that is the same in every
+    process, and after saving and loading the value
+    """
+    kind = type(value).__name__
+
+    if value is None or value is Ellipsis or \
+            type(value) in (bool, int, float, complex, str, bytes):
+        return _leaf(
+            kind, value if isinstance(value, (str, bytes)) else repr(value))
+
+    version = getattr(value, 'version', None)
+    if isinstance(version, (str, bytes)):
+        return _leaf('version', version)
+
+    if id(value) in path:
+        # this value contains itself
+        return _leaf('cycle', len(path) - path.index(id(value)))
+    path = path + (id(value),)
+
+    def each(values):
+        return [_fingerprint(v, path) for v in values]
+
+    def items(d):
+        return sorted(
+            _fingerprint(k, path) + _fingerprint(v, path)
+            for k, v in d.items())
+
+    if isinstance(value, (np.ndarray, np.generic)):
+        content = each(value.tolist()) \
+            if value.dtype.hasobject and value.ndim else [value.tobytes()]
+        return _leaf(
+            'array',
+            value.__class__.__name__,
+            value.dtype.descr if value.dtype.names else value.dtype.str,
+            value.shape,
+            *(content + items(getattr(value, '__dict__', {}))))
+
+    if isinstance(value, types.CodeType):
+        return _code_fingerprint(value, path)
+
+    if isinstance(value, types.FunctionType):
+        closure = [c.cell_contents for c in (value.__closure__ or ())]
+        return _leaf(
+            'function',
+            _code_fingerprint(value.__code__, path),
+            *each([value.__defaults__, value.__kwdefaults__] + closure))
+
+    if isinstance(value, type) or \
+            isinstance(value, (types.BuiltinFunctionType, types.ModuleType)):
+        return _leaf('name', _qualified_name(value))
+
+    if isinstance(value, slice):
+        return _leaf(kind, *each([value.start, value.stop, value.step]))
+
+    if isinstance(value, dict):
+        return _leaf('dict', *items(value))
+
+    if isinstance(value, (set, frozenset)):
+        return _leaf(kind, *sorted(each(value)))
+
+    if type(value) in (list, tuple):
+        return _leaf(kind, *each(value))
+
+    if hasattr(value, 'state_dict'):
+        # a pytorch network is identified by what is saved of it
+        from zounds.persistence.util import extract_init_args
+        try:
+            init_args = extract_init_args(value)
+        except (KeyError, TypeError):
+            init_args = []
+        return _leaf(
+            'network',
+            _qualified_name(type(value)),
+            str(value),
+            *(each(init_args) + items(value.state_dict())))
+
+    if hasattr(value, 'detach') and hasattr(value, 'cpu'):
+        return _fingerprint(value.detach().cpu().numpy(), path)
+
+    # any other value is identified by what would be pickled
+    reduced = value.__reduce_ex__(2)
+    if isinstance(reduced, str):
+        return _leaf('name', reduced)
+    func, args, state, list_items, dict_items = \
+        (tuple(reduced) + (None,) * 3)[:5]
+    return _leaf(
+        'object',
+        *each([
+            func,
+            args,
+            state,
+            list(list_items or []),
+            dict(dict_items or [])
+        ]))
+
+
 class Op(object):
     def __init__(self, func, **kwargs):
         super(Op, self).__init__()
@@ -28,12 +160,10 @@ class Op(object):
         return self._kwargs
 
     def _compute_version(self):
-        h = hashlib.md5(self._func)
-        for v in self._kwargs.values():
-            try:
-                h.update(v.version)
-            except AttributeError:
-                h.update(np.array(v))
+        h = hashlib.md5(_code_fingerprint(marshal.loads(self._func)))
+        for k in sorted(self._kwargs.keys()):
+            h.update(_fingerprint(k))
+            h.update(_fingerprint(self._kwargs[k]))
         return h.hexdigest()
 
     def __getattr__(self, key):
diff --git a/zounds/learn/pytorch_model.py b/zounds/learn/pytorch_model.py
index a342140..18a56e0 100644
--- a/zounds/learn/pytorch_model.py
+++ b/zounds/learn/pytorch_model.py
@@ -53,6 +53,10 @@ class PyTorchPreprocessResult(PreprocessResult):
         init_args = state['init_args']
         network = state['cls'](*init_args)
         network.load_state_dict(restored_weights)
+        for name, value in network.state_dict(keep_vars=True).items():
+            # the weights have the data type they were saved with
+            value.data = value.data.to(restored_weights[name].dtype)
+            value.data.copy_(restored_weights[name])
 
         # KLUDGE: Should we *ever* implicitly move things to the GPU?  If not,
         # this would need to be done explicitly by the user when re-hydrating
-- 
2.43.0


From 4ed5fd18d3ad476cc7f70690748ad022b336b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 057/113] fix: the version of a learned feature depends on how
 its data is converted

---
 zounds/learn/learn.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/learn.py b/zounds/learn/learn.py
index 2816de4..bc7faec 100644
--- a/zounds/learn/learn.py
+++ b/zounds/learn/learn.py
@@ -1,6 +1,9 @@
+from binascii import hexlify
+from hashlib import md5
+import numpy as np
 from scipy.cluster.vq import kmeans
 from featureflow import Node
-from .preprocess import PreprocessResult, Preprocessor
+from .preprocess import PreprocessResult, Preprocessor, _fingerprint
 
 
 class KMeans(Preprocessor):
@@ -73,7 +76,16 @@ class Learned(Node):
             return self._version
 
         pipeline = self._pipeline_func(self._learned)
-        return pipeline.version
+        version = pipeline.version
+
+        # converting the data also has an influence on what is computed
+        if self.dtype:
+            version += np.dtype(self.dtype).str
+        if self._wrapper:
+            version += hexlify(_fingerprint(self._wrapper)).decode()
+
+        return version if version == pipeline.version \
+            else md5(version.encode()).hexdigest()
 
     def _process(self, data):
         pipeline = self._pipeline_func(self._learned)
-- 
2.43.0


From 620a63d9d0241e4ff77ebd66e9ade43aa8fd12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:13 +0000
Subject: [PATCH 058/113] fix: supervised training reports the training and the
 test error under their own names

---
 zounds/learn/supervised.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/supervised.py b/zounds/learn/supervised.py
index a5216ff..b77647b 100644
--- a/zounds/learn/supervised.py
+++ b/zounds/learn/supervised.py
@@ -115,8 +115,8 @@ class SupervisedTrainer(Trainer):
                 self.on_batch_complete(
                     epoch=epoch,
                     batch=i,
-                    train_error=te,
-                    test_error=e,
+                    train_error=e,
+                    test_error=te,
                     samples=self.samples)
 
             self._current_epoch += 1
-- 
2.43.0


From 8ebcf4a7310da0be02d52f147f51bf7e44ae71ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 059/113] fix: an error raised while training on a batch is not
 hidden by an AttributeError

---
 zounds/learn/supervised.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/supervised.py b/zounds/learn/supervised.py
index b77647b..95db47c 100644
--- a/zounds/learn/supervised.py
+++ b/zounds/learn/supervised.py
@@ -94,9 +94,9 @@ class SupervisedTrainer(Trainer):
                 try:
                     inp, output, e = batch(
                         minibatch_data, minibatch_labels, test=False)
-                except RuntimeError as e:
-                    if 'Assert' in e.message:
-                        warnings.warn(e.message)
+                except RuntimeError as exc:
+                    if 'Assert' in str(exc):
+                        warnings.warn(str(exc))
                         continue
                     else:
                         raise
-- 
2.43.0


From 707e264897cfa06452e1fb8fd784c04fb0db9479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 060/113] fix: trainers stop after the requested number of
 epochs

---
 zounds/learn/embedding.py | 2 +-
 zounds/learn/trainer.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/embedding.py b/zounds/learn/embedding.py
index e3f44ee..fe56c10 100644
--- a/zounds/learn/embedding.py
+++ b/zounds/learn/embedding.py
@@ -61,7 +61,7 @@ class TripletEmbeddingTrainer(Trainer):
         start = self._current_epoch
         stop = self._current_epoch + self.checkpoint_epochs
         for epoch in range(start, stop):
-            if epoch > self.epochs:
+            if epoch >= self.epochs:
                 break
 
             for batch in range(batches_in_epoch):
diff --git a/zounds/learn/trainer.py b/zounds/learn/trainer.py
index fea4b04..a49edef 100644
--- a/zounds/learn/trainer.py
+++ b/zounds/learn/trainer.py
@@ -61,7 +61,7 @@ class Trainer(object):
         stop = self._current_epoch + self.checkpoint_epochs
 
         for epoch in range(start, stop):
-            if epoch > self.epochs:
+            if epoch >= self.epochs:
                 break
 
             for batch in range(0, len(data), self.batch_size):
-- 
2.43.0


From fefc841d4774313a2af12b3bec54d1a0f467b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 061/113] fix: training callbacks may come and go at any time,
 and bound methods can be unregistered

---
 zounds/learn/trainer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zounds/learn/trainer.py b/zounds/learn/trainer.py
index a49edef..fdc8abe 100644
--- a/zounds/learn/trainer.py
+++ b/zounds/learn/trainer.py
@@ -9,7 +9,7 @@ class Trainer(object):
         self.checkpoint_epochs = checkpoint_epochs
         self.batch_size = batch_size
         self.epochs = epochs
-        self._batch_complete_callbacks = dict()
+        self._batch_complete_callbacks = []
         self._current_epoch = 0
         self.use_cuda = False
         self.network = None
@@ -74,15 +74,18 @@ class Trainer(object):
         return self.network
 
     def register_batch_complete_callback(self, callback):
-        self._batch_complete_callbacks[id(callback)] = callback
+        # bound methods are another object every time, so compare by equality
+        if callback not in self._batch_complete_callbacks:
+            self._batch_complete_callbacks.append(callback)
 
     def unregister_batch_complete_callback(self, callback):
         try:
-            del self._batch_complete_callbacks[id(callback)]
-        except KeyError:
+            self._batch_complete_callbacks.remove(callback)
+        except ValueError:
             # the callback was never registered
             pass
 
     def on_batch_complete(self, *args, **kwargs):
-        for callback in self._batch_complete_callbacks.values():
+        # callbacks may be registered or unregistered meanwhile
+        for callback in list(self._batch_complete_callbacks):
             callback(*args, **kwargs)
-- 
2.43.0


From e1ad540ec333c1ec26ceaec72a53b7f00cfe9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 062/113] fix: the training history keeps the requested number
 of points

---
 zounds/ui/training_monitor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zounds/ui/training_monitor.py b/zounds/ui/training_monitor.py
index 4327c55..299c403 100644
--- a/zounds/ui/training_monitor.py
+++ b/zounds/ui/training_monitor.py
@@ -64,15 +64,16 @@ class TrainingMonitorApp(ZoundsApp):
             return
 
         for k in self.keys_to_graph:
-            # truncate
-            self.training_history[k] = \
-                self.training_history[k][-self.n_training_points:]
             # append the new data
             try:
                 self.training_history[k].append(kwargs[k])
             except KeyError:
                 # no data has been added for this key
-                pass
+                continue
+            # truncate
+            excess = len(self.training_history[k]) - self.n_training_points
+            self.training_history[k] = \
+                self.training_history[k][max(0, excess):]
 
     def training_handler(self):
         app = self
-- 
2.43.0


From 4bf349ae465dc134b9642228c14dd3a4bd832df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 063/113] fix: a client that disconnects from the training
 monitor does not abort training

---
 zounds/ui/training_monitor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/training_monitor.py b/zounds/ui/training_monitor.py
index 299c403..d4d258d 100644
--- a/zounds/ui/training_monitor.py
+++ b/zounds/ui/training_monitor.py
@@ -93,7 +93,11 @@ class TrainingMonitorApp(ZoundsApp):
                         except KeyError:
                             # there's no data to report for this key
                             pass
-                    self.write_message(json.dumps(data))
+                    try:
+                        self.write_message(json.dumps(data))
+                    except tornado.websocket.WebSocketClosedError:
+                        # the client has gone, which mustn't stop the training
+                        pass
 
                 return x
 
-- 
2.43.0


From 96a6002bcada06b380abb90341366694bad13429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 064/113] fix: ingesting without threads or processes does
 something, and a failing dataset is not ignored

---
 zounds/datasets/ingest.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/zounds/datasets/ingest.py b/zounds/datasets/ingest.py
index 8f01e32..44458c1 100644
--- a/zounds/datasets/ingest.py
+++ b/zounds/datasets/ingest.py
@@ -40,12 +40,15 @@ def ingest(
     cls_args = repeat(cls)
     skip_args = repeat(skip_if_exists)
 
-    map_func(ingest_one, zip(dataset, cls_args, skip_args))
-
-    if pool is not None:
-        # if we're ingesting using multiple processes or threads, the processing
-        # should be parallel, but this method should be synchronous from the
-        # caller's perspective
-        pool.close()
-        pool.join()
+    try:
+        # results are produced lazily, so they have to be consumed
+        for _ in map_func(ingest_one, zip(dataset, cls_args, skip_args)):
+            pass
+    finally:
+        if pool is not None:
+            # if we're ingesting using multiple processes or threads, the
+            # processing should be parallel, but this method should be
+            # synchronous from the caller's perspective
+            pool.close()
+            pool.join()
 
-- 
2.43.0


From e481065aa77d3f3db9f93c72703c8424640de555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 065/113] fix: an item without a url does not stop ingesting
 the others, and uris may be strings

---
 zounds/datasets/ingest.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/zounds/datasets/ingest.py b/zounds/datasets/ingest.py
index 44458c1..fcddfc1 100644
--- a/zounds/datasets/ingest.py
+++ b/zounds/datasets/ingest.py
@@ -5,14 +5,17 @@ from os import cpu_count
 
 def ingest_one(arg):
     metadata, cls, skip_if_exists = arg
-    request = metadata.request
-    url = request.url
-    if skip_if_exists and cls.exists(request.url):
-        print('already processed {request.url}'.format(**locals()))
-        return
 
     try:
-        print('processing {request.url}'.format(**locals()))
+        uri = metadata.uri
+        # uri may also be a plain string
+        url = uri if isinstance(uri, str) else metadata.request.url
+
+        if skip_if_exists and cls.exists(url):
+            print('already processed {url}'.format(**locals()))
+            return
+
+        print('processing {url}'.format(**locals()))
         cls.process(meta=metadata, _id=url)
     except Exception as e:
         print(e)
-- 
2.43.0


From 22c1a57fd727bf34577ae669a4c05ee971217d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 066/113] fix: a download that fails leaves no incomplete local
 file behind

---
 zounds/datasets/util.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/zounds/datasets/util.py b/zounds/datasets/util.py
index 09a63b0..06a3bdc 100644
--- a/zounds/datasets/util.py
+++ b/zounds/datasets/util.py
@@ -1,6 +1,36 @@
 import requests
 import urllib.parse
 import os
+from contextlib import contextmanager
+from uuid import uuid4
+
+
+@contextmanager
+def complete_file(path):
+    """
+    Open a file for writing that only appears at path once everything has been
+    written without an error
+    """
+    partial = '{path}.{unique}.part'.format(path=path, unique=uuid4().hex)
+    try:
+        with open(partial, 'wb') as f:
+            yield f
+        os.replace(partial, path)
+    except BaseException:
+        if os.path.exists(partial):
+            os.remove(partial)
+        raise
+
+
+def check_complete(resp):
+    """
+    Raise an exception if the connection was closed before the entire body of
+    the response was received
+    """
+    expected = resp.headers.get('Content-Length')
+    if expected is not None and resp.raw.tell() < int(expected):
+        raise IOError('{url} was only partially downloaded'.format(
+            url=resp.url))
 
 
 def ensure_local_file(remote_url, local_path, chunksize=4096):
@@ -9,12 +39,14 @@ def ensure_local_file(remote_url, local_path, chunksize=4096):
     local = os.path.join(local_path, filename)
 
     if not os.path.exists(local):
-        with open(local, 'wb') as f:
+        with complete_file(local) as f:
             resp = requests.get(remote_url, stream=True)
+            resp.raise_for_status()
             total_bytes = int(resp.headers['Content-Length'])
             for i, chunk in enumerate(resp.iter_content(chunk_size=chunksize)):
                 f.write(chunk)
                 progress = ((i * chunksize) / float(total_bytes)) * 100
                 print('{remote_url} {progress:.2f}% complete'.format(**locals()))
+            check_complete(resp)
 
     return local
-- 
2.43.0


From 078905030e8d8e0de399d51cb93a826d443858d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 067/113] fix: files of unknown length can be downloaded

---
 zounds/datasets/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zounds/datasets/util.py b/zounds/datasets/util.py
index 06a3bdc..ca1f61b 100644
--- a/zounds/datasets/util.py
+++ b/zounds/datasets/util.py
@@ -42,9 +42,12 @@ def ensure_local_file(remote_url, local_path, chunksize=4096):
         with complete_file(local) as f:
             resp = requests.get(remote_url, stream=True)
             resp.raise_for_status()
-            total_bytes = int(resp.headers['Content-Length'])
+            total_bytes = int(resp.headers.get('Content-Length', 0))
             for i, chunk in enumerate(resp.iter_content(chunk_size=chunksize)):
                 f.write(chunk)
+                if not total_bytes:
+                    # the server didn't say how much there is
+                    continue
                 progress = ((i * chunksize) / float(total_bytes)) * 100
                 print('{remote_url} {progress:.2f}% complete'.format(**locals()))
             check_complete(resp)
-- 
2.43.0


From 4378004bba908be2bcf226b3efda334d5be3e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 068/113] fix: the cache for datasets works and holds complete
 files only

---
 zounds/datasets/cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zounds/datasets/cache.py b/zounds/datasets/cache.py
index 7146af3..f13ebbc 100644
--- a/zounds/datasets/cache.py
+++ b/zounds/datasets/cache.py
@@ -1,6 +1,7 @@
 import os
 import hashlib
 import requests
+from .util import complete_file, check_complete
 
 
 class DataSetCache(object):
@@ -13,7 +14,7 @@ class DataSetCache(object):
 
     def __iter__(self):
         for request in self.dataset:
-            h = hashlib.md5(request.url).hexdigest()
+            h = hashlib.md5(request.url.encode()).hexdigest()
             p = os.path.join(self.path, h)
 
             if not os.path.exists(p):
@@ -23,8 +24,9 @@ class DataSetCache(object):
 
                 resp.raise_for_status()
 
-                with open(p, 'wb') as f:
+                with complete_file(p) as f:
                     for chunk in resp.iter_content(1024):
                         f.write(chunk)
+                    check_complete(resp)
 
             yield p
-- 
2.43.0


From abea871ab9d389ddb3212c531d76b8af2d1ee244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 069/113] fix: the search app can be protected with a secret,
 too

---
 zounds/ui/search.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zounds/ui/search.py b/zounds/ui/search.py
index b640c37..4867c94 100644
--- a/zounds/ui/search.py
+++ b/zounds/ui/search.py
@@ -12,13 +12,15 @@ class ZoundsSearch(BaseZoundsApp):
             visualization_feature=None,
             audio_feature=None,
             search=None,
-            n_results=10):
+            n_results=10,
+            secret=None):
         super(ZoundsSearch, self).__init__(
                 base_path=base_path,
                 model=model,
                 visualization_feature=visualization_feature,
                 audio_feature=audio_feature,
-                html='search.html')
+                html='search.html',
+                secret=secret)
         self.n_results = n_results
         self.search = search
 
-- 
2.43.0


From 3bcdf454ca84d649440b4625f110b1a4a857f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 070/113] fix: search results can be serialized

---
 zounds/ui/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 82f29fa..98a7d24 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -287,7 +287,7 @@ class SearchResultsSerializer(AudioSliceSerializer):
         return isinstance(context.value, SearchResults)
 
     def additional_data(self, context):
-        return {'query': base64.b64encode(context.value.query)}
+        return {'query': base64.b64encode(context.value.query).decode()}
 
     def iter_results(self, context):
         for _id, ts in context.value:
-- 
2.43.0


From d0dd2c82d5a9850e311774a730f985c238cd47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 071/113] fix: search results with extra data can be serialized

---
 zounds/ui/serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 98a7d24..ab73ccb 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -290,5 +290,7 @@ class SearchResultsSerializer(AudioSliceSerializer):
         return {'query': base64.b64encode(context.value.query).decode()}
 
     def iter_results(self, context):
-        for _id, ts in context.value:
+        for result in context.value:
+            # there may be extra data, too
+            _id, ts = result[:2]
             yield ts, _id
-- 
2.43.0


From 4898140083d347585bdfdd7315a0c99e10ccb6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 072/113] fix: signing in takes exactly the secret, including
 whitespace around it

---
 zounds/ui/baseapp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index 296c804..506786e 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -167,7 +167,7 @@ class BaseZoundsApp(object):
                 self.finish()
 
             def post(self):
-                secret = self.get_body_argument('secret')
+                secret = self.get_body_argument('secret', strip=False)
                 if secret == app.secret:
                     self.set_secure_cookie('user', secret)
                     self.redirect('/')
-- 
2.43.0


From 9c332643fd38ff9d1dddccadb89d50a1e702f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:08 +0000
Subject: [PATCH 073/113] fix: requests for bytes are answered with exactly
 those bytes, or refused

---
 zounds/ui/baseapp.py      |  4 +++-
 zounds/ui/contentrange.py | 33 +++++++++++++++++++++++++++++----
 zounds/ui/serializer.py   | 15 +++++++--------
 3 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index 506786e..5db1b24 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -130,9 +130,11 @@ class BaseZoundsApp(object):
                     document=doc, feature=feature, slce=slce)
                 try:
                     result = app.serialize(context)
-                except UnsatisfiableRangeRequestException:
+                except UnsatisfiableRangeRequestException as e:
                     self.set_status(http.client.REQUESTED_RANGE_NOT_SATISFIABLE)
+                    self.set_header('Content-Range', e.content_range)
                     self.finish()
+                    return
                 self.set_header('Content-Type', result.content_type)
                 self.set_header('Accept-Ranges', 'bytes')
                 self.write(result.data)
diff --git a/zounds/ui/contentrange.py b/zounds/ui/contentrange.py
index e87b448..87a741a 100644
--- a/zounds/ui/contentrange.py
+++ b/zounds/ui/contentrange.py
@@ -15,14 +15,22 @@ class UnsatisfiableRangeRequestException(Exception):
     Exception raised when an HTTP range request cannot be satisfied for a
     particular resource
     """
-    pass
+
+    def __init__(self, unit=None, total=None):
+        super(UnsatisfiableRangeRequestException, self).__init__(unit, total)
+        self.unit = unit
+        self.total = total
+
+    @property
+    def content_range(self):
+        return '{unit} */{total}'.format(unit=self.unit, total=self.total)
 
 
 class RangeRequest(object):
     def __init__(self, range_header):
         self.range_header = range_header
         self.re = re.compile(
-                r'^(?P<unit>[^=]+)=(?P<start>[^-]+)-(?P<stop>.*?)$')
+                r'^(?P<unit>[^=]+)=(?P<start>[^-]*)-(?P<stop>.*?)$')
 
     def time_slice(self, start, stop):
         start = float(start)
@@ -36,6 +44,13 @@ class RangeRequest(object):
         return TimeSlice(duration, start=start)
 
     def byte_slice(self, start, stop):
+        """
+        The positions of the first byte and of the last one, which is part of
+        the range, or None, when the range is open-ended.  A negative start
+        counts from the end.
+        """
+        if not start:
+            return slice(-int(stop) or None, None)
         start = int(start)
         try:
             stop = int(stop)
@@ -86,11 +101,21 @@ class ContentRange(object):
 
     @staticmethod
     def from_slice(slce, total):
-        return ContentRange('bytes', slce.start, total, slce.stop)
+        """
+        The bytes asked for that there are, where both start and stop are
+        positions of bytes that are part of the range
+        """
+        start = slce.start
+        stop = total - 1 if slce.stop is None else min(slce.stop, total - 1)
+        if start < 0:
+            start = max(0, start + total)
+        if start > stop:
+            raise UnsatisfiableRangeRequestException('bytes', total)
+        return ContentRange('bytes', start, total, stop)
 
     def __str__(self):
         unit = self.unit
         start = self.start
-        stop = self.stop or self.total
+        stop = self.total if self.stop is None else self.stop
         total = self.total
         return '{unit} {start}-{stop}/{total}'.format(**locals())
diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index ab73ccb..67cabbe 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -50,20 +50,19 @@ class DefaultSerializer(object):
         feature = context.feature
         slce = context.slce
         flo = feature(_id=document._id, decoder=Decoder(), persistence=document)
-        if slce.start:
-            flo.seek(slce.start)
-        if slce.stop:
-            value = flo.read(slce.stop - slce.start)
-        else:
-            value = flo.read()
+        if slce.start is None:
+            return TempResult(flo.read(), self.content_type)
         key = document.key_builder.build(
                 document._id, feature.key, feature.version)
         total = document.database.size(key)
+        content_range = ContentRange.from_slice(slce, total)
+        flo.seek(content_range.start)
+        value = flo.read(content_range.stop - content_range.start + 1)
         return TempResult(
                 value,
                 self.content_type,
-                is_partial=slce.start is not None or slce.stop is not None,
-                content_range=ContentRange.from_slice(slce, total))
+                is_partial=True,
+                content_range=content_range)
 
 
 class AudioSamplesSerializer(object):
-- 
2.43.0


From 2f8f1b60fb0de8a5a4fbc4467411056de09695ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 074/113] fix: ranges that make no sense for a resource are
 ignored

---
 zounds/ui/baseapp.py      |  6 ++++--
 zounds/ui/contentrange.py | 40 ++++++++++++++++++++++++---------------
 zounds/ui/serializer.py   |  4 +++-
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index 5db1b24..f4e1957 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -6,7 +6,8 @@ import tornado.ioloop
 import tornado.web
 import http.client
 import urllib.request, urllib.parse, urllib.error
-from .contentrange import RangeRequest, UnsatisfiableRangeRequestException
+from .contentrange import RangeRequest, RangeUnitUnsupportedException, \
+    UnsatisfiableRangeRequestException
 from .serializer import DefaultSerializer, AudioSamplesSerializer, \
     NumpySerializer, OggVorbisSerializer, ConstantRateTimeSeriesSerializer, \
     OnsetsSerializer, SearchResultsSerializer
@@ -124,7 +125,8 @@ class BaseZoundsApp(object):
                 feature = document.features[feature]
                 try:
                     slce = RangeRequest(self.request.headers['Range']).range()
-                except KeyError:
+                except (KeyError, RangeUnitUnsupportedException):
+                    # ranges of unknown units are ignored
                     slce = slice(None)
                 context = RequestContext(
                     document=doc, feature=feature, slce=slce)
diff --git a/zounds/ui/contentrange.py b/zounds/ui/contentrange.py
index 87a741a..3ae2476 100644
--- a/zounds/ui/contentrange.py
+++ b/zounds/ui/contentrange.py
@@ -34,10 +34,9 @@ class RangeRequest(object):
 
     def time_slice(self, start, stop):
         start = float(start)
-        try:
-            stop = float(stop)
-        except ValueError:
-            stop = None
+        stop = float(stop) if stop else None
+        if stop is not None and not stop >= start:
+            raise ValueError('the range ends before it starts')
         duration = \
             None if stop is None else Picoseconds(int(1e12 * (stop - start)))
         start = Picoseconds(int(1e12 * start))
@@ -50,12 +49,15 @@ class RangeRequest(object):
         counts from the end.
         """
         if not start:
-            return slice(-int(stop) or None, None)
+            # the last bytes, of which there may be none
+            length = int(stop)
+            if length < 0:
+                raise ValueError('the range has a negative length')
+            return slice(-length or MAX_BYTES, None)
         start = int(start)
-        try:
-            stop = int(stop)
-        except ValueError:
-            stop = None
+        stop = int(stop) if stop else None
+        if stop is not None and stop < start:
+            raise ValueError('the range ends before it starts')
         return slice(start, stop)
 
     def range(self):
@@ -71,12 +73,20 @@ class RangeRequest(object):
         start = m.groupdict()['start']
         stop = m.groupdict()['stop']
 
-        if units == 'bytes':
-            return self.byte_slice(start, stop)
-        elif units == 'seconds':
-            return self.time_slice(start, stop)
-        else:
-            raise RangeUnitUnsupportedException(units)
+        try:
+            if units == 'bytes':
+                return self.byte_slice(start, stop)
+            elif units == 'seconds':
+                return self.time_slice(start, stop)
+        except ValueError:
+            # ranges that make no sense, or several at once, are ignored
+            return slice(None)
+
+        raise RangeUnitUnsupportedException(units)
+
+
+# a position that no resource has
+MAX_BYTES = 2 ** 63
 
 
 class ContentRange(object):
diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 67cabbe..280bc56 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -50,7 +50,9 @@ class DefaultSerializer(object):
         feature = context.feature
         slce = context.slce
         flo = feature(_id=document._id, decoder=Decoder(), persistence=document)
-        if slce.start is None:
+        if isinstance(slce, TimeSlice) or slce.start is None:
+            # the whole resource, also when asked for seconds of something that
+            # has none
             return TempResult(flo.read(), self.content_type)
         key = document.key_builder.build(
                 document._id, feature.key, feature.version)
-- 
2.43.0


From d9e71755e0b55a550b1514ba2e11af26f8405c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 075/113] fix: requests for seconds are answered with exactly
 that time span, or refused

---
 zounds/ui/contentrange.py | 25 +++++++++++++++----------
 zounds/ui/serializer.py   |  8 ++++----
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/zounds/ui/contentrange.py b/zounds/ui/contentrange.py
index 3ae2476..c9c1a15 100644
--- a/zounds/ui/contentrange.py
+++ b/zounds/ui/contentrange.py
@@ -37,11 +37,14 @@ class RangeRequest(object):
         stop = float(stop) if stop else None
         if stop is not None and not stop >= start:
             raise ValueError('the range ends before it starts')
-        duration = \
-            None if stop is None else Picoseconds(int(1e12 * (stop - start)))
-        start = Picoseconds(int(1e12 * start))
+        start = self._picoseconds(start)
+        duration = None if stop is None else self._picoseconds(stop) - start
         return TimeSlice(duration, start=start)
 
+    def _picoseconds(self, seconds):
+        # no resource is longer than that, and numbers that are must not overflow
+        return Picoseconds(int(round(1e12 * min(seconds, MAX_SECONDS))))
+
     def byte_slice(self, start, stop):
         """
         The positions of the first byte and of the last one, which is part of
@@ -85,8 +88,9 @@ class RangeRequest(object):
         raise RangeUnitUnsupportedException(units)
 
 
-# a position that no resource has
+# positions that no resource has
 MAX_BYTES = 2 ** 63
+MAX_SECONDS = 4e6
 
 
 class ContentRange(object):
@@ -99,15 +103,16 @@ class ContentRange(object):
     @staticmethod
     def from_timeslice(timeslice, total):
         one_second = Seconds(1)
-        stop = None
-        start = timeslice.start / one_second
-        if timeslice.duration is not None:
-            stop = start + (timeslice.duration / one_second)
+        start = timeslice.start
+        stop = total if timeslice.duration is None else min(timeslice.end, total)
+        if start >= stop:
+            raise UnsatisfiableRangeRequestException(
+                'seconds', total / one_second)
         return ContentRange(
                 'seconds',
-                timeslice.start / one_second,
+                start / one_second,
                 total / one_second,
-                stop)
+                stop / one_second)
 
     @staticmethod
     def from_slice(slce, total):
diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 280bc56..6a832f2 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -118,6 +118,8 @@ class OggVorbisSerializer(object):
         document = context.document
         slce = context.slce
         wrapper = feature(_id=document._id, persistence=document)
+        content_range = ContentRange.from_timeslice(
+                slce, Picoseconds(int(1e12 * wrapper.duration_seconds)))
         samples = wrapper[slce]
         bio = BytesIO()
         with SoundFile(
@@ -129,12 +131,10 @@ class OggVorbisSerializer(object):
                 subtype='VORBIS') as sf:
             sf.write(samples)
         bio.seek(0)
-        content_range = ContentRange.from_timeslice(
-                slce, Picoseconds(int(1e12 * wrapper.duration_seconds)))
         return TempResult(
                 bio.read(),
                 'audio/ogg',
-                is_partial=slce != TimeSlice(),
+                is_partial=True,
                 content_range=content_range)
 
 
@@ -183,10 +183,10 @@ class ConstantRateTimeSeriesSerializer(object):
         feature = context.feature
         document = context.document
         data = feature(_id=document._id, persistence=document)
-        sliced_data = data[context.slce]
         td = data.dimensions[0]
         content_range = ContentRange.from_timeslice(
                 context.slce, td.end)
+        sliced_data = data[context.slce]
         return generate_image(
                 sliced_data,
                 is_partial=True,
-- 
2.43.0


From f06106aadd02b08cc858adc969704d2ddd06032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:46 +0000
Subject: [PATCH 076/113] fix: long spans of audio can be requested

---
 zounds/ui/serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 6a832f2..c492a04 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -129,7 +129,9 @@ class OggVorbisSerializer(object):
                 channels=wrapper.channels,
                 format='OGG',
                 subtype='VORBIS') as sf:
-            sf.write(samples)
+            # writing too much at once crashes some versions of libsndfile
+            for i in range(0, len(samples), wrapper.samplerate):
+                sf.write(samples[i: i + wrapper.samplerate])
         bio.seek(0)
         return TempResult(
                 bio.read(),
-- 
2.43.0


From dd0ab219b7889c32f03c05e47d5c129edb9d5e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:34 +0000
Subject: [PATCH 077/113] fix: statements are executed once only

---
 zounds/ui/api.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/zounds/ui/api.py b/zounds/ui/api.py
index 581f219..8015a03 100644
--- a/zounds/ui/api.py
+++ b/zounds/ui/api.py
@@ -91,19 +91,28 @@ class ZoundsApp(BaseZoundsApp):
                     pass
 
             def post(self):
-                statement = self.request.body
+                statement = self.request.body.strip()
                 self.set_header('Content-Type', 'application/json')
                 output = dict()
 
                 try:
                     orig_stdout = sys.stdout
                     sys.stdout = sio = StringIO()
+                    # compile first: if the statement itself raises a SyntaxError
+                    # as it's executed, it mustn't be executed once more
                     try:
-                        value = eval(statement, globals, locals)
+                        code = compile(statement, '<string>', 'eval')
+                        is_expression = True
+                    except SyntaxError:
+                        code = compile(statement, '<string>', 'exec')
+                        is_expression = False
+
+                    if is_expression:
+                        value = eval(code, globals, locals)
                         output['result'] = str(value)
                         self._add_url(statement, output, value)
-                    except SyntaxError:
-                        exec (statement, globals, locals)
+                    else:
+                        exec(code, globals, locals)
                         sio.seek(0)
                         output['result'] = sio.read()
                     self.set_status(http.client.OK)
-- 
2.43.0


From 577805082f09e7a57de5cea52f1624ab9e544177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:46 +0000
Subject: [PATCH 078/113] fix: what an expression prints is part of the answer

---
 zounds/ui/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/api.py b/zounds/ui/api.py
index 8015a03..9c6a28a 100644
--- a/zounds/ui/api.py
+++ b/zounds/ui/api.py
@@ -109,7 +109,13 @@ class ZoundsApp(BaseZoundsApp):
 
                     if is_expression:
                         value = eval(code, globals, locals)
-                        output['result'] = str(value)
+                        result = str(value)
+                        printed = sio.getvalue()
+                        if printed:
+                            # most likely, this is a call of print()
+                            result = printed + \
+                                ('' if value is None else result)
+                        output['result'] = result
                         self._add_url(statement, output, value)
                     else:
                         exec(code, globals, locals)
-- 
2.43.0


From 02fcca18d31d47407b7e2e8b489d436627097a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:59 +0000
Subject: [PATCH 079/113] fix: values that cannot be displayed are answered,
 too

---
 zounds/ui/api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zounds/ui/api.py b/zounds/ui/api.py
index 9c6a28a..dcb76f4 100644
--- a/zounds/ui/api.py
+++ b/zounds/ui/api.py
@@ -73,9 +73,9 @@ class ZoundsApp(BaseZoundsApp):
         class ReplHandler(tornado.web.RequestHandler):
 
             def _add_url(self, statement, output, value):
-                parser = FeatureParser(document, locals)
-                doc, feature = parser.parse_feature(statement)
                 try:
+                    parser = FeatureParser(document, locals)
+                    doc, feature = parser.parse_feature(statement)
                     context = RequestContext(
                             document=doc,
                             feature=feature,
@@ -89,6 +89,10 @@ class ZoundsApp(BaseZoundsApp):
                     output['contentType'] = result.content_type
                 except NoMatchingSerializerException:
                     pass
+                except Exception:
+                    # there's no way to display the value, e.g., because it has
+                    # too many dimensions, but there's still an answer
+                    pass
 
             def post(self):
                 statement = self.request.body.strip()
-- 
2.43.0


From aad303f1e8e5c710f47f0437199cfc1c5f95f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:13 +0000
Subject: [PATCH 080/113] fix: apps share no namespace unless they are given
 one

---
 zounds/ui/api.py              | 11 +++++++----
 zounds/ui/training_monitor.py | 16 ++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/zounds/ui/api.py b/zounds/ui/api.py
index dcb76f4..5c37400 100644
--- a/zounds/ui/api.py
+++ b/zounds/ui/api.py
@@ -20,8 +20,8 @@ class ZoundsApp(BaseZoundsApp):
             model=None,
             visualization_feature=None,
             audio_feature=None,
-            globals={},
-            locals={},
+            globals=None,
+            locals=None,
             html='index.html',
             secret=None):
 
@@ -33,8 +33,11 @@ class ZoundsApp(BaseZoundsApp):
             html=html,
             secret=secret)
 
-        self.globals = globals
-        self.locals = locals
+        if globals is None and locals is None:
+            # a namespace of its own
+            globals = locals = {}
+        self.globals = {} if globals is None else globals
+        self.locals = {} if locals is None else locals
         self.temp = {}
 
     def custom_routes(self):
diff --git a/zounds/ui/training_monitor.py b/zounds/ui/training_monitor.py
index d4d258d..fec4ea5 100644
--- a/zounds/ui/training_monitor.py
+++ b/zounds/ui/training_monitor.py
@@ -25,8 +25,8 @@ class TrainingMonitorApp(ZoundsApp):
             model=None,
             visualization_feature=None,
             audio_feature=None,
-            globals={},
-            locals={},
+            globals=None,
+            locals=None,
             secret=None):
 
         super(TrainingMonitorApp, self).__init__(
@@ -151,8 +151,8 @@ class SupervisedTrainingMonitorApp(TrainingMonitorApp):
             model=None,
             visualization_feature=None,
             audio_feature=None,
-            globals={},
-            locals={},
+            globals=None,
+            locals=None,
             secret=None):
         super(SupervisedTrainingMonitorApp, self).__init__(
             trainer=trainer,
@@ -182,8 +182,8 @@ class GanTrainingMonitorApp(TrainingMonitorApp):
             model=None,
             visualization_feature=None,
             audio_feature=None,
-            globals={},
-            locals={},
+            globals=None,
+            locals=None,
             secret=None):
         super(GanTrainingMonitorApp, self).__init__(
             trainer=trainer,
@@ -213,8 +213,8 @@ class TripletEmbeddingMonitorApp(TrainingMonitorApp):
             model=None,
             visualization_feature=None,
             audio_feature=None,
-            globals={},
-            locals={},
+            globals=None,
+            locals=None,
             secret=None):
         super(TripletEmbeddingMonitorApp, self).__init__(
             trainer=trainer,
-- 
2.43.0


From d63b905d513dc60719e9f2dc6f5ee8621a71e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 081/113] fix: training monitors link to features where they
 are

---
 zounds/ui/training_monitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zounds/ui/training_monitor.py b/zounds/ui/training_monitor.py
index fec4ea5..065b772 100644
--- a/zounds/ui/training_monitor.py
+++ b/zounds/ui/training_monitor.py
@@ -147,7 +147,7 @@ class SupervisedTrainingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
@@ -178,7 +178,7 @@ class GanTrainingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
@@ -209,7 +209,7 @@ class TripletEmbeddingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
-- 
2.43.0


From 95f4736af0aa7c8fddbd56336e6dae44de143a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:59 +0000
Subject: [PATCH 082/113] fix: MIDI numbers which are not python ints have the
 name of their note

---
 zounds/util/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/util/midi.py b/zounds/util/midi.py
index 5bc0d7d..42232a5 100644
--- a/zounds/util/midi.py
+++ b/zounds/util/midi.py
@@ -3,7 +3,7 @@ NOTE_INDICES = {n: i for i, n in enumerate(NOTES)}
 
 
 def midi_to_note(midi_number):
-    octave = midi_number // len(NOTES)
+    octave = int(midi_number // len(NOTES))
     note_name = NOTES[int(midi_number % len(NOTES))]
     return f'{note_name}{octave}'
 
-- 
2.43.0


From c8ebb7cf67c95b8d7b67313e007f7b556811271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:21 +0000
Subject: [PATCH 083/113] fix: integer slices of multi-resolution columns are
 labelled with their own bands

---
 zounds/spectral/tfrepresentation.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index a17e309..8c8e96b 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -1,7 +1,7 @@
 import numpy as np
 from . import frequencyscale
 from .frequencyscale import Hertz
-from zounds.core import Dimension
+from zounds.core import Dimension, IdentityDimension
 from zounds.spectral.frequencyscale import ExplicitScale
 
 
@@ -124,11 +124,29 @@ class ExplicitFrequencyDimension(Dimension):
             except KeyError:
                 slce = self.scale.get_slice(index)
         else:
-            slce = index
+            slce = self._bands_of_columns(index)
+            if slce is None:
+                return IdentityDimension()
 
         return ExplicitFrequencyDimension(
             self.scale[slce], self._rebase(self.slices[slce]))
 
+    def _bands_of_columns(self, index):
+        """
+        Find the bands that a slice of this dimension's columns is made of.
+        There are none when the slice doesn't consist of whole bands
+        """
+        start, stop, step = index.indices(self.slices[-1].stop)
+        selected = [
+            i for i, s in enumerate(self.slices)
+            if start <= s.start and s.stop <= stop]
+        if step != 1 or not selected:
+            return None
+        first, last = selected[0], selected[-1]
+        if (self.slices[first].start, self.slices[last].stop) != (start, stop):
+            return None
+        return slice(first, last + 1)
+
     def _rebase(self, slices):
         """
         The sliced array begins at the first of the selected slices, so offsets
-- 
2.43.0


From bb2afe63ff26eb94e79b7daf8c25441cd111877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:34 +0000
Subject: [PATCH 084/113] fix: moments of a square view are overlap-added where
 they belong

---
 zounds/spectral/frequencyadaptive.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zounds/spectral/frequencyadaptive.py b/zounds/spectral/frequencyadaptive.py
index 6b0fdd8..85dc2d0 100644
--- a/zounds/spectral/frequencyadaptive.py
+++ b/zounds/spectral/frequencyadaptive.py
@@ -128,17 +128,19 @@ class FrequencyAdaptive(ArrayWithUnits):
             # no overlap add is necessary
             return ArrayWithUnits(stacked, [td, fdim])
 
-        step_size_samples = int(n_coeffs * overlap_ratio)
+        step_size_samples = n_coeffs * (1 - overlap_ratio)
 
-        first_dim = int(np.round(
-            (stacked.shape[0] * overlap_ratio) + (n_coeffs * overlap_ratio)))
+        first_dim = 0
+        if len(arr):
+            first_dim = \
+                int(np.round((len(arr) - 1) * step_size_samples)) + n_coeffs
 
         output = ArrayWithUnits(
             np.zeros((first_dim, self.n_bands)),
             dimensions=[td, fdim])
 
         for i, chunk in enumerate(arr):
-            start = step_size_samples * i
+            start = int(np.round(step_size_samples * i))
             stop = start + n_coeffs
             output[start: stop] += chunk.reshape((-1, self.n_bands))
 
-- 
2.43.0


From efa799182d22180daa9cacc9018d7425ce3bd21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 085/113] fix: square views of bands with negative coefficients
 keep their scale

---
 zounds/spectral/frequencyadaptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/frequencyadaptive.py b/zounds/spectral/frequencyadaptive.py
index 85dc2d0..3df0c20 100644
--- a/zounds/spectral/frequencyadaptive.py
+++ b/zounds/spectral/frequencyadaptive.py
@@ -85,8 +85,8 @@ class FrequencyAdaptive(ArrayWithUnits):
         # it isn't using the norm="ortho" argument when calling fft, so ensure
         # that the original scale/magnitude is maintained after calling
         # resample
-        band_max = band.max(axis=-1, keepdims=True)
-        rs_max = rs.max(axis=-1, keepdims=True)
+        band_max = np.abs(band).max(axis=-1, keepdims=True)
+        rs_max = np.abs(rs).max(axis=-1, keepdims=True)
         ratio = rs_max / (band_max + epsilon)
         normalized = rs / (ratio + epsilon)
         return np.asarray(normalized.flatten())
-- 
2.43.0


From 83e400ac03e15c085fdbc2c099435911f577a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:20 +0000
Subject: [PATCH 086/113] fix: bands are found by their own name in slices of
 multi-resolution columns

---
 zounds/spectral/tfrepresentation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index 8c8e96b..06d920b 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -128,8 +128,14 @@ class ExplicitFrequencyDimension(Dimension):
             if slce is None:
                 return IdentityDimension()
 
-        return ExplicitFrequencyDimension(
-            self.scale[slce], self._rebase(self.slices[slce]))
+        slices = self.slices[slce]
+        if len(slices) == len(self.slices):
+            scale = self.scale
+        else:
+            # a scale which computes its bands anew could differ very slightly
+            # from this one, whose bands would no longer be found
+            scale = ExplicitScale(list(self.scale)[slce])
+        return ExplicitFrequencyDimension(scale, self._rebase(slices))
 
     def _bands_of_columns(self, index):
         """
-- 
2.43.0


From 2e2c1a0a3148aba86ed5746ce4ac3979b94db362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 087/113] fix: FreeSoundSearch stops after n_results, and after
 the last page

---
 zounds/datasets/freesound.py | 49 ++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/zounds/datasets/freesound.py b/zounds/datasets/freesound.py
index 20ceaf7..5cd9eae 100644
--- a/zounds/datasets/freesound.py
+++ b/zounds/datasets/freesound.py
@@ -1,5 +1,6 @@
 import requests
 import time
+from itertools import islice
 from zounds.soundfile import AudioMetaData
 
 
@@ -73,32 +74,32 @@ class FreeSoundSearch(object):
         print(data)
         return self._freesound_to_audio_metadata(data)
 
-    def _iter_results(self, link=None):
-        if link:
-            results = requests.get(link, params={'token': self.api_key})
-        else:
-            results = requests.get(
-                'http://www.freesound.org/apiv2/search/text',
-                params={
-                    'query': self.query,
-                    'token': self.api_key
-                })
-        time.sleep(self.delay)
-
-        results.raise_for_status()
-        results = results.json()
-
-        for r in results['results']:
-            yield self._get_metadata_by_id(r['id'])
-
-            # prevent 429 "Too Many Requests" responses
+    def _iter_results(self):
+        results = requests.get(
+            'http://www.freesound.org/apiv2/search/text',
+            params={
+                'query': self.query,
+                'token': self.api_key
+            })
+
+        while True:
             time.sleep(self.delay)
 
-        for r in self._iter_results(results['next']):
-            yield r
+            results.raise_for_status()
+            results = results.json()
 
-    def __iter__(self):
-        for i, data in enumerate(self._iter_results()):
-            if i > self.n_results:
+            for r in results['results']:
+                yield self._get_metadata_by_id(r['id'])
+
+                # prevent 429 "Too Many Requests" responses
+                time.sleep(self.delay)
+
+            link = results['next']
+            if not link:
+                # this was the last page
                 break
+            results = requests.get(link, params={'token': self.api_key})
+
+    def __iter__(self):
+        for data in islice(self._iter_results(), self.n_results):
             yield self._freesound_to_audio_metadata(data)
-- 
2.43.0


From 1550016b9c579f39b2b0ce39acc64514c075ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:22 +0000
Subject: [PATCH 088/113] fix: PhatDrumLoops searches the text of the page

---
 zounds/datasets/phatdrumloops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/datasets/phatdrumloops.py b/zounds/datasets/phatdrumloops.py
index 80d3285..59c28bd 100644
--- a/zounds/datasets/phatdrumloops.py
+++ b/zounds/datasets/phatdrumloops.py
@@ -31,8 +31,8 @@ class PhatDrumLoops(object):
 
     def __iter__(self):
         resp = requests.get('http://phatdrumloops.com/beats.php')
-        pattern = re.compile('href="(?P<uri>/audio/wav/[^\.]+\.wav)"')
-        for m in pattern.finditer(resp.content):
+        pattern = re.compile(r'href="(?P<uri>/audio/wav/[^\.]+\.wav)"')
+        for m in pattern.finditer(resp.text):
             url = urllib.parse.urljoin('http://phatdrumloops.com',
                                    m.groupdict()['uri'])
             request = requests.Request(
-- 
2.43.0


From bff66a3dcd591030c270ca8d600d779b99bf841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:36 +0000
Subject: [PATCH 089/113] fix: PhatDrumLoops does not run several links
 together

---
 zounds/datasets/phatdrumloops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/datasets/phatdrumloops.py b/zounds/datasets/phatdrumloops.py
index 59c28bd..6d7ad8a 100644
--- a/zounds/datasets/phatdrumloops.py
+++ b/zounds/datasets/phatdrumloops.py
@@ -31,7 +31,7 @@ class PhatDrumLoops(object):
 
     def __iter__(self):
         resp = requests.get('http://phatdrumloops.com/beats.php')
-        pattern = re.compile(r'href="(?P<uri>/audio/wav/[^\.]+\.wav)"')
+        pattern = re.compile(r'href="(?P<uri>/audio/wav/[^\."]+\.wav)"')
         for m in pattern.finditer(resp.text):
             url = urllib.parse.urljoin('http://phatdrumloops.com',
                                    m.groupdict()['uri'])
-- 
2.43.0


From c58fac9c0a081d300003450fc406ba8e2ed1e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 090/113] fix: MusicNet reads its metadata as text

---
 zounds/datasets/musicnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/datasets/musicnet.py b/zounds/datasets/musicnet.py
index 8235208..79bd9fe 100644
--- a/zounds/datasets/musicnet.py
+++ b/zounds/datasets/musicnet.py
@@ -29,7 +29,7 @@ class MusicNet(object):
         local_metadata = ensure_local_file(self._metadata, self.path)
 
         metadata = dict()
-        with open(local_metadata, 'rb') as f:
+        with open(local_metadata, 'r', newline='', encoding='utf-8') as f:
             reader = csv.DictReader(f)
             for row in reader:
                 metadata[row['id']] = row
-- 
2.43.0


From 42b74eb8b25e248b7346bd2ba3541cee185afcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:03 +0000
Subject: [PATCH 091/113] fix: InternetArchive does not alter the metadata
 shared by several files

---
 zounds/datasets/internetarchive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/datasets/internetarchive.py b/zounds/datasets/internetarchive.py
index c5b1312..bb6f181 100644
--- a/zounds/datasets/internetarchive.py
+++ b/zounds/datasets/internetarchive.py
@@ -61,7 +61,8 @@ class InternetArchive(object):
                 sound_url = urllib.parse.urljoin(
                     base_url, '/download/{archive_id}{k}'.format(**locals()))
                 request = requests.Request(method='GET', url=sound_url)
-                metadata = self._get_metadata(v, all_files)
+                # several files may share the metadata of the same original
+                metadata = dict(self._get_metadata(v, all_files))
                 metadata.update(self.attrs)
                 web_url = 'https://archive.org//details/{archive_id}'\
                     .format(**locals())
-- 
2.43.0


From 2ef4aa6a16a80603b3fd0a19f28f52580835c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 092/113] fix: InternetArchive points at files with special
 characters in their names

---
 zounds/datasets/internetarchive.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zounds/datasets/internetarchive.py b/zounds/datasets/internetarchive.py
index bb6f181..fa9244c 100644
--- a/zounds/datasets/internetarchive.py
+++ b/zounds/datasets/internetarchive.py
@@ -1,3 +1,4 @@
+import re
 import requests
 import urllib.parse
 from zounds.soundfile.audio_metadata import AudioMetaData
@@ -58,8 +59,12 @@ class InternetArchive(object):
 
         for k, v in all_files.items():
             if self.format_filter(v):
+                # these have a meaning of their own in a url
+                path = re.sub(
+                    '[%?#]', lambda m: urllib.parse.quote(m.group()), k)
                 sound_url = urllib.parse.urljoin(
-                    base_url, '/download/{archive_id}{k}'.format(**locals()))
+                    base_url,
+                    '/download/{archive_id}{path}'.format(**locals()))
                 request = requests.Request(method='GET', url=sound_url)
                 # several files may share the metadata of the same original
                 metadata = dict(self._get_metadata(v, all_files))
-- 
2.43.0


From 63fbeefc8d04da17877c5b099140f9c34f24c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:28 +0000
Subject: [PATCH 093/113] fix: MetaData keeps a request's own Range header,
 however it is spelled

---
 zounds/soundfile/audio_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/soundfile/audio_metadata.py b/zounds/soundfile/audio_metadata.py
index da143cd..36092bc 100644
--- a/zounds/soundfile/audio_metadata.py
+++ b/zounds/soundfile/audio_metadata.py
@@ -134,7 +134,7 @@ class MetaData(Node):
                 headers={'Range': 'bytes=0-'})
             yield AudioMetaData(uri=req)
         elif isinstance(data, requests.Request):
-            if 'range' not in data.headers:
+            if 'range' not in (header.lower() for header in data.headers):
                 data.headers['range'] = 'bytes=0-'
             yield AudioMetaData(uri=data)
         elif self._is_local_file(data) or self._is_file(data):
-- 
2.43.0


From ba09a41f0ff5528e138b64565a68a8cba53bdf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:40 +0000
Subject: [PATCH 094/113] fix: the metadata of audio from any open file can be
 stored

---
 zounds/soundfile/audio_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/soundfile/audio_metadata.py b/zounds/soundfile/audio_metadata.py
index 36092bc..4cf0b0c 100644
--- a/zounds/soundfile/audio_metadata.py
+++ b/zounds/soundfile/audio_metadata.py
@@ -3,7 +3,6 @@ import os
 from soundfile import SoundFile
 import requests
 import json
-import io
 from urllib.parse import urlparse
 import featureflow as ff
 
@@ -87,7 +86,8 @@ class AudioMetaDataEncoder(Aggregator, Node):
     def _uri(self, uri):
         if isinstance(uri, requests.Request):
             return uri.url
-        elif isinstance(uri, io.BytesIO) or isinstance(uri, ff.ZipWrapper):
+        elif isinstance(uri, ff.ZipWrapper) or hasattr(uri, 'read'):
+            # there's no way to refer to this later
             return None
         else:
             return uri
-- 
2.43.0


From 41c6e2a84dddf9ea2894bb4758eefe5d2fcbbfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 095/113] fix: resampled audio stays aligned with the original,
 however it is chunked

---
 zounds/soundfile/resample.py | 64 ++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/zounds/soundfile/resample.py b/zounds/soundfile/resample.py
index 26a7907..38eb5c2 100644
--- a/zounds/soundfile/resample.py
+++ b/zounds/soundfile/resample.py
@@ -77,16 +77,24 @@ class Resample(object):
         libsamplerate.src_new.restype = POINTER(SRC_STATE)
         self._state = libsamplerate.src_new(
             self.c_int_converter_type, self.c_int_channels, self.error)
+        # the number of samples seen and produced so far, and samples that
+        # haven't been consumed yet
+        self._n_in = 0
+        self._n_out = 0
+        self._leftover = None
 
     def _prepare_input(self, insamples):
         # ensure that the input is float data
-        if np.float32 != insamples.dtype:
-            return insamples.astype(np.float32)
-        return insamples
+        # in a layout that libsamplerate understands
+        return np.ascontiguousarray(insamples, dtype=np.float32)
 
-    def _output_buffer(self, insamples):
-        outsize = (int(np.round(len(insamples) * self._ratio)), self.nchannels)
-        return np.zeros(outsize, dtype=np.float32).squeeze()
+    def _output_buffer(self):
+        # everything up to the end of the input we've seen so far
+        n_samples = int(np.round(self._n_in * self._ratio)) - self._n_out
+        outsize = \
+            (n_samples,) if self.nchannels == 1 \
+            else (n_samples, self.nchannels)
+        return np.zeros(outsize, dtype=np.float32)
 
     def _check_for_error(self, return_code):
         if return_code:
@@ -97,7 +105,11 @@ class Resample(object):
     def __call__(self, insamples, end_of_input=False):
 
         normalized_insamples = self._prepare_input(insamples)
-        outsamples = self._output_buffer(normalized_insamples)
+        self._n_in += len(normalized_insamples)
+        if self._leftover is not None:
+            normalized_insamples = np.concatenate(
+                [self._leftover, normalized_insamples])
+        outsamples = self._output_buffer()
 
         insamples_ptr = normalized_insamples.ctypes.data_as(POINTER(c_float))
         outsamples_ptr = outsamples.ctypes.data_as(POINTER(c_float))
@@ -111,15 +123,26 @@ class Resample(object):
             input_frames=len(normalized_insamples),
             # number of output samples
             output_frames=len(outsamples),
-            # NOT the end of input, i.e., there is more data to process
+            # whether this is the end of input, or there is more to process
             end_of_input=int(end_of_input),
             # the conversion ratio
             src_ratio=self._ratio)
         sd_ptr = pointer(sd)
         rv = libsamplerate.src_process(self._state, sd_ptr)
         self._check_for_error(rv)
+        self._leftover = normalized_insamples[sd.input_frames_used:]
+
+        if not end_of_input:
+            # the remaining samples depend on input that is yet to come
+            outsamples = outsamples[:sd.output_frames_gen]
+
+        self._n_out += len(outsamples)
         return outsamples
 
+    def flush(self):
+        # all of the input has been seen
+        return self(self._leftover[:0], end_of_input=True)
+
 
 class Resampler(Node):
     """
@@ -186,10 +209,16 @@ class Resampler(Node):
         super(Resampler, self).__init__(needs=needs)
         self._samplerate = samplerate or SR44100()
         self._resample = None
+        self._rs = None
 
     def _noop(self, data, finalized):
         return data
 
+    def _output(self, resampled):
+        if not isinstance(resampled, ArrayWithUnits):
+            resampled = AudioSamples(resampled, self._samplerate)
+        return resampled
+
     def _process(self, data):
         sr = data.samples_per_second
 
@@ -202,17 +231,16 @@ class Resampler(Node):
 
             if target_sr != sr:
                 self._rs = self._resample
-                # KLUDGE: The following line seems to solve a bug whereby 
-                # libsamplerate doesn't generate enough samples the first time
-                # src_process is called. We're calling it once here, so the "real"
-                # output will come out click-free
-                silence = AudioSamples.silence(
-                    self._samplerate, Seconds(1), channels=data.channels)
-                self._resample(silence)
             else:
                 self._rs = self._noop
 
         resampled = self._rs(data, self._finalized)
-        if not isinstance(resampled, ArrayWithUnits):
-            resampled = AudioSamples(resampled, self._samplerate)
-        yield resampled
+        if len(resampled) or self._finalized:
+            yield self._output(resampled)
+
+    def _last_chunk(self):
+        if self._rs is not None and self._rs is self._resample:
+            # produce the samples that depended on the input that followed
+            resampled = self._resample.flush()
+            if len(resampled):
+                yield self._output(resampled)
-- 
2.43.0


From 6ced19abab5ccfbb157380ebec3e72372e0ef40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:21 +0000
Subject: [PATCH 096/113] fix: phase_shift moved a signal by about twice the
 time it was given

---
 zounds/spectral/functional.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index e33d6a0..e071da7 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -220,7 +220,10 @@ def phase_shift(coeffs, samplerate, time_shift, axis=-1, frequency_band=None):
 
     n_coeffs = coeffs.shape[axis]
     shift_samples = int(time_shift / samplerate.frequency)
-    shift = (np.arange(0, n_coeffs) * 2j * np.pi) / n_coeffs
+    # the coefficients of a real-valued signal only cover the positive
+    # frequencies
+    n_samples = 2 * (n_coeffs - 1)
+    shift = (np.arange(0, n_coeffs) * 2j * np.pi) / n_samples
     shift = np.exp(-shift * shift_samples)
     shift = ArrayWithUnits(shift, [frequency_dim])
 
-- 
2.43.0


From 8ee95708b2f6629927a5d119698954d276efc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:40 +0000
Subject: [PATCH 097/113] fix: pitch_shift drifted, and returned too few
 samples of long sounds

---
 zounds/spectral/functional.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index e071da7..b94e46d 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -188,25 +188,8 @@ def pitch_shift(x, semitones, frame_sample_rate=None):
     # hang on to original dimensions
     dimensions = stretched.dimensions
 
-    # window the audio using a power-of-2 frame size for more efficient FFT
-    # computations
-    batch_size = stretched.shape[0]
-    window_size = 1024
-    step = (1, window_size)
-    new_window_shape = int(window_size * factor)
-    padding = window_size - int(stretched.shape[-1] % window_size)
-    stretched = np.pad(stretched, ((0, 0), (0, padding)), mode='constant')
-    windowed = sliding_window(stretched, step, step, flatten=False).squeeze()
-
     # resample the audio so that it has the correct duration
-    rs = resample(windowed, new_window_shape, axis=-1)
-
-    # flatten out the windowed, resampled audio
-    rs = rs.reshape(batch_size, -1)
-
-    # slice the audio to remove residual zeros resulting from our power-of-2
-    # zero padding above
-    rs = rs[:, :original_shape]
+    rs = resample(np.asarray(stretched), original_shape, axis=-1)
 
     return ArrayWithUnits(rs, dimensions)
 
-- 
2.43.0


From 747ed7c5ce4c17cb947699e1d01880ab62aca1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:59 +0000
Subject: [PATCH 098/113] fix: fft couldn't pad anything but the last axis of a
 2D array

---
 zounds/spectral/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index b94e46d..7556224 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -31,9 +31,10 @@ def fft(x, axis=-1, padding_samples=0):
             axis before performing the FFT
     """
     if padding_samples > 0:
+        shape = list(x.shape)
+        shape[axis] = padding_samples
         padded = np.concatenate(
-            [x, np.zeros((len(x), padding_samples), dtype=x.dtype)],
-            axis=axis)
+            [x, np.zeros(shape, dtype=x.dtype)], axis=axis)
     else:
         padded = x
 
-- 
2.43.0


From ef5ed00321a77508f938ecb21e12e3af3502ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:27 +0000
Subject: [PATCH 099/113] fix: fft along any but the last axis

---
 zounds/spectral/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index 7556224..4e628ae 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -41,7 +41,7 @@ def fft(x, axis=-1, padding_samples=0):
     transformed = np.fft.rfft(padded, axis=axis, norm='ortho')
 
     sr = audio_sample_rate(int(Seconds(1) / x.dimensions[axis].frequency))
-    scale = LinearScale.from_sample_rate(sr, transformed.shape[-1])
+    scale = LinearScale.from_sample_rate(sr, transformed.shape[axis])
     new_dimensions = list(x.dimensions)
     new_dimensions[axis] = FrequencyDimension(scale)
     return ArrayWithUnits(transformed, new_dimensions)
-- 
2.43.0


From bc23baf25916f8fa3469c493ad66386cea17fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 100/113] fix: phase_shift along any but the last axis

---
 zounds/spectral/functional.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index 4e628ae..9ecb2c8 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -220,7 +220,11 @@ def phase_shift(coeffs, samplerate, time_shift, axis=-1, frequency_band=None):
 
     slices = [slice(None) for _ in range(coeffs.ndim)]
     slices[axis] = frequency_band
-    new_coeffs[tuple(slices)] *= shift[frequency_band]
+    # line the shift up with the frequency axis, wherever it is
+    shape = [1] * coeffs.ndim
+    shape[axis] = -1
+    new_coeffs[tuple(slices)] *= \
+        np.asarray(shift[frequency_band]).reshape(shape)
     return new_coeffs
 
 
-- 
2.43.0


From 0179635dfffb40273865914fd63088ad76bbcb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 101/113] fix: applying a scale to more than two dimensions

---
 zounds/spectral/frequencyscale.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index 6e4f783..4a0addd 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -270,8 +270,7 @@ class FrequencyScale(object):
 
     def apply(self, time_frequency_repr, window):
         basis = self._basis(time_frequency_repr.dimensions[-1].scale, window)
-        transformed = np.dot(basis, time_frequency_repr.T).T
-        return transformed
+        return np.dot(time_frequency_repr, basis.T)
 
     def __eq__(self, other):
         return \
-- 
2.43.0


From c9952f4fb70e2e56f80ba7f3e9b350589f90dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:16 +0000
Subject: [PATCH 102/113] fix: chroma ignored the highest tones of the
 frequency band

---
 zounds/spectral/frequencyscale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index 4a0addd..0c9f568 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -618,7 +618,8 @@ class ChromaScale(FrequencyScale):
         stop_semitones = \
             int(np.round(self._hz_to_semitones(self.frequency_band.stop_hz)))
 
-        semitones = np.arange(start_semitones - 1, stop_semitones)
+        # every tone's band reaches from the tone below it to the one above it
+        semitones = np.arange(start_semitones - 1, stop_semitones + 2)
         hz = self._semitones_to_hz(semitones)
 
         bands = []
-- 
2.43.0


From 06a07eaceaae4cb96bf9993918bbc547ac0d6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:12 +0000
Subject: [PATCH 103/113] fix: inverting mu-law failed for integers

---
 zounds/loudness/loudness.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/loudness/loudness.py b/zounds/loudness/loudness.py
index de167bf..1c4380f 100644
--- a/zounds/loudness/loudness.py
+++ b/zounds/loudness/loudness.py
@@ -24,8 +24,7 @@ def mu_law(x, mu=255):
 def inverse_mu_law(x, mu=255):
     s = np.sign(x)
     x = np.abs(x)
-    x *= np.log(1 + mu)
-    x = (np.exp(x) - 1) / mu
+    x = (np.exp(x * np.log(1 + mu)) - 1) / mu
     return x * s
 
 
-- 
2.43.0


From 03f684001ea86bb6b94709be259fdc8e87e53f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:22 +0000
Subject: [PATCH 104/113] fix: scaling a constant array to the unit interval
 gave NaN

---
 zounds/loudness/loudness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/loudness/loudness.py b/zounds/loudness/loudness.py
index 1c4380f..d63335d 100644
--- a/zounds/loudness/loudness.py
+++ b/zounds/loudness/loudness.py
@@ -48,8 +48,8 @@ def instance_scale(x, axis=-1, epsilon=1e-8, return_maxes=False):
 def unit_scale(x, axis=None):
     scaled = x - x.min(axis=axis, keepdims=True)
     mx = scaled.max(axis=axis, keepdims=True)
-    scaled = np.divide(scaled, mx, where=max != 0)
-    return scaled
+    # an array (or slice) with only one value is all zeros
+    return scaled / np.where(mx == 0, 1, mx)
 
 
 class MuLaw(Node):
-- 
2.43.0


From 785c8210b4c61571b1c2eecc58506eb939cc1149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:34 +0000
Subject: [PATCH 105/113] fix: the spectral centroid was not weighted by
 magnitudes

---
 zounds/spectral/spectral.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/spectral.py b/zounds/spectral/spectral.py
index b590b4c..9e8bc03 100644
--- a/zounds/spectral/spectral.py
+++ b/zounds/spectral/spectral.py
@@ -278,12 +278,13 @@ class SpectralCentroid(Node):
 
     def _first_chunk(self, data):
         self._bins = np.arange(1, data.shape[-1] + 1)
-        self._bins_sum = np.sum(self._bins)
         return data
 
     def _process(self, data):
         data = np.abs(data)
-        yield (data * self._bins).sum(axis=1) / self._bins_sum
+        total = data.sum(axis=1)
+        # silent frames have a centroid of zero
+        yield (data * self._bins).sum(axis=1) / np.where(total == 0, 1, total)
 
 
 class SpectralFlatness(Node):
-- 
2.43.0


From 6d69a83aa0fbf363e30decca5030b8072941251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:45 +0000
Subject: [PATCH 106/113] fix: categories of samples depended on the least
 sample, and those louder than the greatest wrapped around

---
 zounds/timeseries/functional.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/zounds/timeseries/functional.py b/zounds/timeseries/functional.py
index 8f5b2cf..efef96f 100644
--- a/zounds/timeseries/functional.py
+++ b/zounds/timeseries/functional.py
@@ -12,17 +12,18 @@ def categorical(x, mu=255, normalize=True):
 
     if normalize:
         # normalize the signal
-        mx = x.max()
-        x = np.divide(x, mx, where=mx != 0)
+        mx = np.abs(x).max()
+        if mx != 0:
+            x = x / mx
 
     # mu law compression
-    x = mu_law(x)
+    x = mu_law(x, mu=mu)
 
     # translate and scale to [0, 1]
-    x = (x - x.min()) * 0.5
+    x = (x + 1) * 0.5
 
-    # convert to the range [0, 255]
-    x = (x * mu).astype(np.uint8)
+    # convert to the range [0, mu]
+    x = (x * mu).astype(np.intp)
 
     # create the array to house the categorical representation
     c = np.zeros((np.product(x.shape), mu + 1), dtype=np.uint8)
-- 
2.43.0


From a61f62826f05ec44a2e648a65125f8756de9c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:56 +0000
Subject: [PATCH 107/113] fix: inverting categorical samples

---
 zounds/timeseries/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/functional.py b/zounds/timeseries/functional.py
index efef96f..d54806d 100644
--- a/zounds/timeseries/functional.py
+++ b/zounds/timeseries/functional.py
@@ -41,6 +41,6 @@ def inverse_categorical(x, mu=255):
     """
     flat = x.reshape((-1, x.shape[-1]))
     indices = np.argmax(flat, axis=1).astype(np.float32)
-    indices = (indices / mu) - 0.5
+    indices = ((indices / mu) - 0.5) * 2
     inverted = inverse_mu_law(indices, mu=mu).reshape(x.shape[:-1])
-    return ArrayWithUnits(inverted, x.dimensions[:2])
+    return ArrayWithUnits(inverted, x.dimensions[:-1])
-- 
2.43.0


From bf95bdda1ee62252905caa9647f65067c3415969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:57 +0000
Subject: [PATCH 108/113] fix: documents that have no samples can be part of an
 endless training set

---
 zounds/learn/random_samples.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index 1c28daf..2a50025 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -210,6 +210,11 @@ class InfiniteSampler(Node):
         # compute the contribution this sample makes to the dataset at
         # large
         feature_size = len(x)
+        if not feature_size:
+            # there's nothing to choose from, e.g., because all of this
+            # document's samples were filtered out
+            return 0
+
         ratio = float(feature_size) / total_samples
 
         # determine the appropriate number of samples to contribute to
-- 
2.43.0


From aa9879a4c9e2c73d686d593b49a189da6abb21d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:13 +0000
Subject: [PATCH 109/113] fix: the DCT transform for torch can be inverted,
 along any axis

---
 zounds/learn/dct_transform.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zounds/learn/dct_transform.py b/zounds/learn/dct_transform.py
index 044108c..09a246b 100644
--- a/zounds/learn/dct_transform.py
+++ b/zounds/learn/dct_transform.py
@@ -29,6 +29,9 @@ class DctTransform(object):
             return self._basis_cache[n]
         except KeyError:
             basis = torch.from_numpy(dct_basis(n)).float()
+            # without this, the basis isn't orthonormal, and the transform
+            # isn't perfectly invertible
+            basis[0] *= 0.5 ** 0.5
             if self.use_cuda:
                 basis = basis.cuda()
             self._basis_cache[n] = basis
@@ -48,8 +51,8 @@ class DctTransform(object):
         n = torch.FloatTensor(1)
         n[:] = 2. / x.shape[axis]
         n = self._variable(n)
-        coeffs = torch.matmul(x, basis) * torch.sqrt(n)
-        return coeffs
+        coeffs = torch.matmul(x.transpose(axis, -1), basis) * torch.sqrt(n)
+        return coeffs.transpose(axis, -1)
 
     def dct(self, x, axis=-1):
         basis = self._variable(self.dct_basis(x.shape[axis]))
@@ -63,7 +66,7 @@ class DctTransform(object):
         # figure out how many samples our resampled signal will have
         n_samples = int(factor * x.shape[axis])
 
-        coeffs = self.dct(x)
+        coeffs = self.dct(x, axis=axis)
 
         # create the shape of our new coefficients
         new_coeffs_shape = list(coeffs.shape)
@@ -88,7 +91,7 @@ class DctTransform(object):
             slce = tuple(slce)
             new_coeffs[slce] = 0
 
-        return self.idct(new_coeffs)
+        return self.idct(new_coeffs, axis=axis)
 
     def frequency_decomposition(self, x, factors, axis=-1):
 
@@ -111,7 +114,7 @@ class DctTransform(object):
 
             new_coeffs[slce] = coeffs[slce]
 
-            resampled = self.idct(new_coeffs)
+            resampled = self.idct(new_coeffs, axis=axis)
             bands.append(resampled)
 
         return bands
-- 
2.43.0


From 5be9c5712bbd450369f9e540e62798c6777576e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:29 +0000
Subject: [PATCH 110/113] fix: the short-time DCT applies the window it's
 given, and keeps coefficients and frames apart

---
 zounds/learn/dct_transform.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zounds/learn/dct_transform.py b/zounds/learn/dct_transform.py
index 09a246b..f884554 100644
--- a/zounds/learn/dct_transform.py
+++ b/zounds/learn/dct_transform.py
@@ -38,13 +38,14 @@ class DctTransform(object):
             return basis
 
     def window(self, n, window):
+        key = (n, window)
         try:
-            return self._window_cache[n]
+            return self._window_cache[key]
         except KeyError:
             data = torch.from_numpy(window._wdata(n)).float()
             if self.use_cuda:
                 data = data.cuda()
-            self._window_cache[n] = data
+            self._window_cache[key] = data
             return data
 
     def _base_dct_transform(self, x, basis, axis=-1):
@@ -125,5 +126,5 @@ class DctTransform(object):
         window = self._variable(self.window(x.shape[-1], window))
         x = x * window
         x = self.dct(x, axis=-1)
-        x = x.view((original_shape[0], size, x.shape[2]))
-        return x
+        x = x.reshape((original_shape[0], x.shape[-2], size))
+        return x.transpose(1, 2)
-- 
2.43.0


From b0e6049c8d4abca7c768bcc7ceb780cf88bff02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:42 +0000
Subject: [PATCH 111/113] fix: raw samples can be embedded, and embeddings stay
 with their samples

---
 zounds/learn/sample_embedding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zounds/learn/sample_embedding.py b/zounds/learn/sample_embedding.py
index 7f76677..4e8ffe4 100644
--- a/zounds/learn/sample_embedding.py
+++ b/zounds/learn/sample_embedding.py
@@ -16,7 +16,7 @@ class RawSampleEmbedding(nn.Module):
         self.n_categories = n_categories
         self.embedding_dim = embedding_dim
         self.linear = nn.Linear(
-            self.n_categories, self.embedding_dim)
+            self.n_categories + 1, self.embedding_dim)
 
     def _variable(self, x, *args, **kwargs):
         v = Variable(x, *args, **kwargs)
@@ -34,7 +34,7 @@ class RawSampleEmbedding(nn.Module):
 
     def _shift_and_scale(self, x):
         x = x + 1
-        x = x * ((self.n_categories + 1) / 2.)
+        x = x * (self.n_categories / 2.)
         return x
 
     def _one_hot(self, x):
@@ -63,5 +63,5 @@ class RawSampleEmbedding(nn.Module):
         # place all embeddings on the unit sphere
         norms = torch.norm(x, dim=-1)
         x = x / norms.view(-1, 1)
-        x = x.view(-1, self.embedding_dim, sample_size)
-        return x
+        x = x.view(-1, sample_size, self.embedding_dim)
+        return x.transpose(1, 2)
-- 
2.43.0


From 5f9812a4cc68d2924c37214dbf8860e5488987f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:58 +0000
Subject: [PATCH 112/113] fix: a categorical loss compares every sample with
 the same sample of the target

---
 zounds/learn/loss.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/loss.py b/zounds/learn/loss.py
index 6bd3c38..01726d6 100644
--- a/zounds/learn/loss.py
+++ b/zounds/learn/loss.py
@@ -204,7 +204,13 @@ class CategoricalLoss(object):
         else:
             categorical = self._categorical(input)
 
-        discretized = self._discretized(target)
+            # categories come right after the batch
+            categorical = categorical \
+                .view(input.shape[0], -1, self.n_categories + 1) \
+                .transpose(1, 2).contiguous()
+
+        # the category of a sample is the nearest one
+        discretized = torch.round(self._discretized(target))
         inp = categorical.view(
             -1, self.n_categories + 1, 2, input.shape[-1] // 2)
         t = discretized.view(-1, 2, target.shape[-1] // 2).long()
-- 
2.43.0


From 596112a1c6df1fae85292f8c51e6fcbfba6763fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:13 +0000
Subject: [PATCH 113/113] fix: sinc filters can have an odd number of taps

---
 zounds/learn/sinclayer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/sinclayer.py b/zounds/learn/sinclayer.py
index 28017d3..260263e 100644
--- a/zounds/learn/sinclayer.py
+++ b/zounds/learn/sinclayer.py
@@ -61,7 +61,10 @@ class SincLayer(nn.Module):
 
     def _sinc(self, frequency):
         x = self.linear[None, :] * frequency[:, None]
-        return torch.sin(x) / x
+        # sin(x) / x has a hole at zero, where its limit is one
+        hole = x == 0
+        x = torch.where(hole, torch.ones_like(x), x)
+        return torch.where(hole, torch.ones_like(x), torch.sin(x) / x)
 
     def _start_frequencies(self):
         return torch.abs(self.filter_parameters[:, 0])
-- 
2.43.0

