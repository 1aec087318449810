From e1b38136aa2c4ef0edc485dea375e672475f58cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 01/83] fix: a time slice that ends before the beginning of a
 time axis is empty

A negative stop index was handed to numpy, which interprets it relative to the
end of the array, so samples that do not overlap the slice were returned.
---
 zounds/timeseries/timeseries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index b20938e..aebe305 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -271,7 +271,8 @@ class TimeDimension(Dimension):
         ratio = np.round(end / self.frequency, 2)
 
 
-        stop_index = np.ceil(ratio)
+        # a slice that ends before this dimension begins contains no samples
+        stop_index = max(0, np.ceil(ratio))
         return slice(int(start_index), int(stop_index))
 
     def __eq__(self, other):
-- 
2.43.0


From 3f0dcec84e616ad2c097b17b5cf7a27f46d77f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 02/83] fix: compute the first sample of a time slice exactly,
 at any position

Beyond 2 ** 53 picoseconds (2.5 hours) the quotient of two durations, computed
as doubles, could round down to the preceding sample, which does not overlap
the slice.
---
 zounds/timeseries/timeseries.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index aebe305..583e80e 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -258,8 +258,9 @@ class TimeDimension(Dimension):
             return ts
 
         diff = self.duration - self.frequency
-        start_index = \
-            max(0, np.floor((ts.start - diff) / self.frequency))
+        # integer division, since a quotient of doubles may round to the
+        # neighboring sample at positions beyond 2 ** 53 picoseconds
+        start_index = max(0, (ts.start - diff) // self.frequency)
         end = self.end if ts.duration is None else ts.end
 
 
-- 
2.43.0


From e08605ed09bd95b1e7b9eac8a93ec30087fc1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 03/83] fix: index arrays with units by numpy integers, integer
 arrays and newaxis

np.newaxis used up one of the array's dimensions, numpy integers and slices of
them were handed to the dimensions as if they were durations or frequencies,
and an array of positions was taken for a tuple of indices
---
 zounds/core/axis.py | 49 +++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 8e510c3..2411b41 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -232,29 +232,40 @@ class ArrayWithUnits(np.ndarray):
             except (AttributeError, TypeError):
                 yield sl
 
+    def _is_integer(self, x):
+        # np.timedelta64 derives from np.integer
+        return isinstance(x, (int, np.integer)) \
+            and not isinstance(x, np.timedelta64)
+
     def _is_integer_based_slice(self, sl):
         if not isinstance(sl, slice):
             return False
 
-        try:
-            return \
-                (sl.start is None or sl.start.bit_length()) \
-                and (sl.stop is None or sl.stop.bit_length())
-        except AttributeError:
-            return False
+        return \
+            (sl.start is None or self._is_integer(sl.start)) \
+            and (sl.stop is None or self._is_integer(sl.stop))
+
+    def _ellipsis_size(self, index):
+        """
+        The number of dimensions an Ellipsis stands for.  np.newaxis does not
+        correspond to any of this array's dimensions
+        """
+        return len(self.dimensions) - len(
+            [x for x in index if x is not Ellipsis and x is not None])
 
     def _compute_indices(self, index):
         dims_pos = 0
         for sl in index:
-            if sl is None \
-                    or isinstance(sl, int) \
+            if sl is None:
+                yield sl
+            elif self._is_integer(sl) \
                     or self._is_integer_based_slice(sl) \
-                    or isinstance(sl, list):
+                    or isinstance(sl, (list, np.ndarray)):
                 # burn one
                 dims_pos += 1
                 yield sl
             elif sl is Ellipsis:
-                dims_pos += len(self.dimensions) - (len(index) - 1)
+                dims_pos += self._ellipsis_size(index)
                 yield Ellipsis
             else:
                 dim = self.dimensions[dims_pos]
@@ -264,21 +275,21 @@ class ArrayWithUnits(np.ndarray):
     def _new_dims(self, index, new_arr):
         dims_pos = 0
         shape_pos = 0
-        not_ellipsis_or_none = len([x for x in index if x is not Ellipsis and x is not None])
         for sl in index:
             if sl is None:
                 # additional dimension via np.newaxis
+                shape_pos += 1
                 yield IdentityDimension()
-            elif isinstance(sl, int):
+            elif self._is_integer(sl):
                 # burn a dimension
                 dims_pos += 1
-            elif isinstance(sl, list):
+            elif isinstance(sl, (list, np.ndarray)):
                 dims_pos += 1
-                shape_pos += 1
-                yield IdentityDimension()
+                for i in range(np.ndim(sl)):
+                    shape_pos += 1
+                    yield IdentityDimension()
             elif sl is Ellipsis:
-                ellipsis_size = len(self.dimensions) - not_ellipsis_or_none
-                for i in range(ellipsis_size):
+                for i in range(self._ellipsis_size(index)):
                     yield self.dimensions[dims_pos]
                     dims_pos += 1
                     shape_pos += 1
@@ -306,7 +317,7 @@ class ArrayWithUnits(np.ndarray):
                 return a
             else:
                 return a,
-        if isinstance(a, np.ndarray) and a.dtype == np.bool:
+        if isinstance(a, np.ndarray):
             return a,
         try:
             return tuple(a)
@@ -326,7 +337,7 @@ class ArrayWithUnits(np.ndarray):
                 and index.dtype == np.bool:
             return np.asarray(self)[index]
 
-        if self.ndim == 1 and isinstance(index, int):
+        if self.ndim == 1 and self._is_integer(index):
             return np.asarray(self)[index]
 
         index = self._tuplify(index)
-- 
2.43.0


From 82800d45c7e211ea8206281613c37ff19ac76dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 04/83] fix: pad overlapping windows so that no trailing
 samples are dropped

with a window of 6, a step of 4 and 11 samples, padding added nothing and the
last sample was lost
---
 zounds/nputil/npx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index e6c18da..40589c4 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -99,7 +99,9 @@ def _wpad(l, windowsize, stepsize):
     nsteps = ((l // stepsize) * stepsize)
     overlap = (windowsize - stepsize)
     if overlap:
-        return nsteps + overlap
+        padded = nsteps + overlap
+        # samples beyond the end of the last window require one more step
+        return padded + stepsize if l % stepsize > max(0, overlap) else padded
 
     diff = (l - nsteps)
     left = max(0, windowsize - diff)
-- 
2.43.0


From 7cccf4f04b5ab1500cad5446ebc629b8158e7f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 05/83] fix: the windows of a stream do not depend on how it is
 cut into chunks

When the stream ended, the samples of the last window were windowed once more,
unless the last chunk happened to complete a window exactly; without overlap
this produced a window of silence
---
 zounds/spectral/sliding_window.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zounds/spectral/sliding_window.py b/zounds/spectral/sliding_window.py
index c63776e..4d419d1 100644
--- a/zounds/spectral/sliding_window.py
+++ b/zounds/spectral/sliding_window.py
@@ -172,6 +172,7 @@ class SlidingWindow(Node):
         self._func = wfunc
         self._padwith = padwith
         self._cache = None
+        self._has_produced_windows = False
 
     def _first_chunk(self, data):
         if self._padwith:
@@ -191,6 +192,14 @@ class SlidingWindow(Node):
     def _dequeue(self):
         duration = TimeSlice(duration=self._scheme.duration)
         frequency = TimeSlice(duration=self._scheme.frequency)
+
+        if self._finalized and self._has_produced_windows:
+            ws, ss = self._cache._sliding_window_integer_slices(
+                duration, frequency)
+            if len(self._cache) <= ws[0] - ss[0]:
+                # every remaining sample is already part of the last window
+                raise NotEnoughData()
+
         leftover, arr = self._cache.sliding_window_with_leftovers(
             duration,
             frequency,
@@ -200,6 +209,7 @@ class SlidingWindow(Node):
             raise NotEnoughData()
 
         self._cache = leftover
+        self._has_produced_windows = True
 
         # BUG: Order matters here (try arr * self._func instead)
         # why does that statement result in __rmul__ being called for each
-- 
2.43.0


From 301a9b5900d97bdfeb7bbe2122aab0cbd53aa219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 06/83] fix: a slice of an always-even scale stays even at its
 upper end

There is no band above the last one, so the slice has to be extended
downwards there.  Also compute the bands of a linear scale with one band.
---
 zounds/spectral/frequencyscale.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index f775818..8679fc7 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -325,7 +325,11 @@ class FrequencyScale(object):
             # KLUDGE: This is simple, but it may make sense to choose move the
             # upper *or* lower bound, based on which one introduces a lower
             # error
-            stop_index += 1
+            if stop_index < len(self):
+                stop_index += 1
+            elif start_index > 0:
+                # there is no band left above the slice
+                start_index -= 1
         return slice(start_index, stop_index)
 
     def __getitem__(self, index):
@@ -398,10 +402,13 @@ class LinearScale(FrequencyScale):
         return LinearScale(fb, n_bands, always_even=always_even)
 
     def _compute_bands(self):
-        freqs = np.linspace(
-            self.start_hz, self.stop_hz, self.n_bands, endpoint=False)
         # constant, non-overlapping bandwidth
-        bandwidth = freqs[1] - freqs[0]
+        freqs, bandwidth = np.linspace(
+            self.start_hz,
+            self.stop_hz,
+            self.n_bands,
+            endpoint=False,
+            retstep=True)
         return tuple(FrequencyBand(f, f + bandwidth) for f in freqs)
 
 
-- 
2.43.0


From bef4a87b145329fe76ac9e6fbac1ef780d1be512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 07/83] fix: part of a bark or mel scale keeps its bands

The bands of a part were computed anew from its limits, with bands that
differ from the ones of the coefficients they stand for.
---
 zounds/spectral/frequencyscale.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index 8679fc7..012ef62 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -541,6 +541,9 @@ class BarkScale(FrequencyScale):
     def __init__(self, frequency_band, n_bands):
         super(BarkScale, self).__init__(frequency_band, n_bands)
 
+    def _construct_scale_from_slice(self, bands):
+        return ExplicitScale(bands)
+
     def _compute_bands(self):
         start = Bark.to_bark(self.frequency_band.start_hz)
         stop = Bark.to_bark(self.frequency_band.stop_hz)
@@ -570,6 +573,9 @@ class MelScale(FrequencyScale):
     def __init__(self, frequency_band, n_bands):
         super(MelScale, self).__init__(frequency_band, n_bands)
 
+    def _construct_scale_from_slice(self, bands):
+        return ExplicitScale(bands)
+
     def _compute_bands(self):
         start = Mel.to_mel(self.frequency_band.start_hz)
         stop = Mel.to_mel(self.frequency_band.stop_hz)
-- 
2.43.0


From ef0bede4dd063dee21ab6f3ae1653e6e5bc6a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 08/83] fix: explicit scales with different numbers of bands
 differ

---
 zounds/spectral/frequencyscale.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index 012ef62..4eb2103 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -516,7 +516,9 @@ class ExplicitScale(FrequencyScale):
         return self._bands
 
     def __eq__(self, other):
-        return all([a == b for (a, b) in zip(self, other)])
+        return \
+            len(self) == len(other) \
+            and all([a == b for (a, b) in zip(self, other)])
 
 
 class Bark(Hertz):
-- 
2.43.0


From b2a5603955d262033b1e16c67eed51f8c4350ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 09/83] fix: a part of a frequency-adaptive array can be sliced
 again

The positions of the bands of a part were those in the whole array, so
slicing the part by a band returned nothing or the wrong coefficients, and
weighting it failed.  Also drop a leftover print.
---
 zounds/spectral/tfrepresentation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index 555c926..dec257b 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -120,14 +120,19 @@ class ExplicitFrequencyDimension(Dimension):
             try:
                 slce = self._lookup[index]
                 return ExplicitFrequencyDimension(
-                    ExplicitScale([index]), [slce])
+                    ExplicitScale([index]), self._rebase([slce]))
             except KeyError:
                 slce = self.scale.get_slice(index)
         else:
             slce = index
 
-        print(slce)
-        return ExplicitFrequencyDimension(self.scale[slce], self.slices[slce])
+        return ExplicitFrequencyDimension(
+            self.scale[slce], self._rebase(self.slices[slce]))
+
+    def _rebase(self, slices):
+        # positions are relative to the beginning of the sliced axis
+        offset = slices[0].start
+        return [slice(s.start - offset, s.stop - offset) for s in slices]
 
     def integer_based_slice(self, index):
         if not isinstance(index, frequencyscale.FrequencyBand):
-- 
2.43.0


From 13a156529c98cb99c60f4088bd9e686d8d35d82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 10/83] fix: frequencies given as integers convert to float

float(Hertz(5)) raised TypeError, and so did every computation of bands from
limits like Hertz(5).
---
 zounds/spectral/frequencyscale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index 4eb2103..b12984c 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -21,7 +21,7 @@ class Hertz(float):
         return Hertz(self.hz + other)
 
     def __float__(self):
-        return self.hz
+        return float(self.hz)
 
 
 Hz = Hertz
-- 
2.43.0


From c4bccf60093ac93151d4f9f70ee961190b85fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 11/83] fix: a bark or mel value compares and computes as its
 frequency in hertz

It did so with its number of barks or mels, so that a band from Bark(5) to
Bark(20) reached from 5 to 20 hertz.
---
 zounds/spectral/frequencyscale.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index b12984c..75f273c 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -522,6 +522,9 @@ class ExplicitScale(FrequencyScale):
 
 
 class Bark(Hertz):
+    def __new__(cls, bark):
+        return super(Bark, cls).__new__(cls, Bark.to_hz(bark))
+
     def __init__(self, bark):
         self.bark = bark
         super(Bark, self).__init__(Bark.to_hz(bark))
@@ -558,6 +561,9 @@ class BarkScale(FrequencyScale):
 
 
 class Mel(Hertz):
+    def __new__(cls, mel):
+        return super(Mel, cls).__new__(cls, Mel.to_hz(mel))
+
     def __init__(self, mel):
         self.mel = mel
         super(Mel, self).__init__(Mel.to_hz(mel))
-- 
2.43.0


From 849726fc97f66811a0bbe7aebc88942ab7ff1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 12/83] fix: the intersection of time slices lies where they
 overlap

It had the right duration, but always started at zero.
---
 zounds/timeseries/timeseries.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index 583e80e..0150523 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -87,10 +87,9 @@ class TimeSlice(object):
             return self.start.__ge__(other)
 
     def __and__(self, other):
-        delta = max(
-            Picoseconds(0),
-            min(self.end, other.end) - max(self.start, other.start))
-        return TimeSlice(delta)
+        start = max(self.start, other.start)
+        delta = max(Picoseconds(0), min(self.end, other.end) - start)
+        return TimeSlice(delta, start=start)
 
     def __contains__(self, other):
         if isinstance(other, np.timedelta64):
-- 
2.43.0


From 399529c19a2c2636bdb4ce3664f7f9b6af147956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 13/83] fix: encode time slices exactly, at any position

A quotient of durations is a double, which loses picoseconds beyond two and a
half hours.
---
 zounds/timeseries/variablerate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index a96c071..834f558 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -90,8 +90,8 @@ class VariableRateTimeSeriesEncoder(NumpyEncoder):
         ])
         ps = Picoseconds(1)
         output.slicedata[:] = data.slicedata
-        output.start[:] = [ts.start / ps for ts in data.slices]
-        output.duration[:] = [ts.duration / ps for ts in data.slices]
+        output.start[:] = [ts.start // ps for ts in data.slices]
+        output.duration[:] = [ts.duration // ps for ts in data.slices]
         return output
 
 
-- 
2.43.0


From 5104402b8523ca5c9f82c5ab7aa3d9be3324f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 14/83] fix: a variable rate series ends where the last of its
 slices ends

This is not necessarily the end of the slice that begins last.
---
 zounds/timeseries/variablerate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index 834f558..19913db 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -58,8 +58,8 @@ class VariableRateTimeSeries(object):
     @property
     def end(self):
         try:
-            return self._data.timeslice[-1].end
-        except IndexError:
+            return max(ts.end for ts in self._data.timeslice)
+        except ValueError:
             return Seconds(0)
 
     def __getitem__(self, index):
-- 
2.43.0


From 5ff19e4bf98bd5ef91817410f2f283a0a82edc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 15/83] fix: index a variable rate series by a numpy integer

---
 zounds/timeseries/variablerate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index 19913db..cbc5de2 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -72,7 +72,7 @@ class VariableRateTimeSeries(object):
                  if x.timeslice.end > index.start and
                  (index.duration is None or x.timeslice.start < index.end))
             return VariableRateTimeSeries(g)
-        elif isinstance(index, int):
+        elif isinstance(index, (int, np.integer)):
             return self._data[index]
         else:
             return VariableRateTimeSeries(self._data[index])
-- 
2.43.0


From a54ea66a03f26a95afba8b95e16a69a45b652b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 16/83] fix: a single sample of silence keeps its axes

One mono sample lost its only axis and raised ValueError, one stereo sample
became two mono samples.
---
 zounds/timeseries/audiosamples.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index e77be9f..18a9e5b 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -84,8 +84,9 @@ class AudioSamples(ArrayWithUnits):
 
     @classmethod
     def silence(cls, samplerate, duration, dtype=np.float32, channels=1):
-        shape = (int(duration / samplerate.frequency), channels)
-        silence = np.zeros(shape, dtype=dtype).squeeze()
+        n_samples = int(duration / samplerate.frequency)
+        shape = (n_samples,) if channels == 1 else (n_samples, channels)
+        silence = np.zeros(shape, dtype=dtype)
         return cls(silence, samplerate)
 
     def silence_like(self, duration):
-- 
2.43.0


From 3da1be469dd5de88f390c4190c5e5c88b0f6ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 17/83] fix: silence_like returns silence

It returned a constant signal of ones.
---
 zounds/timeseries/audiosamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 18a9e5b..773160c 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -90,10 +90,8 @@ class AudioSamples(ArrayWithUnits):
         return cls(silence, samplerate)
 
     def silence_like(self, duration):
-        x = self.__class__.silence(
+        return self.__class__.silence(
             self.samplerate, duration, self.dtype, self.channels)
-        x[:] = 1
-        return x
 
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.__class__.silence(
-- 
2.43.0


From 3bcc9d26bc75cdcc7680eb9f70667dfa4359ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 18/83] fix: pad multi-channel audio with silence

---
 zounds/timeseries/audiosamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 773160c..248ad07 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -95,7 +95,7 @@ class AudioSamples(ArrayWithUnits):
 
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.__class__.silence(
-            self.samplerate, silence_duration, self.dtype)
+            self.samplerate, silence_duration, self.dtype, self.channels)
         return AudioSamples(np.concatenate([self, silence]), self.samplerate)
 
     @property
-- 
2.43.0


From f8c2716f7e61056b15f24df503cffe654816cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 19/83] fix: a packed array with units feature can be created

---
 zounds/persistence/arraywithunits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/persistence/arraywithunits.py b/zounds/persistence/arraywithunits.py
index 25877af..0a6e70e 100644
--- a/zounds/persistence/arraywithunits.py
+++ b/zounds/persistence/arraywithunits.py
@@ -118,7 +118,7 @@ class PackedArrayWithUnitsFeature(Feature):
             encoder=PackedArrayWithUnitsEncoder,
             decoder=ArrayWithUnitsDecoder(),
             **extractor_args):
-        super(ArrayWithUnitsFeature, self).__init__(
+        super(PackedArrayWithUnitsFeature, self).__init__(
                 extractor,
                 needs=needs,
                 store=store,
-- 
2.43.0


From f7faf5bdeb0c4dd77e5ac1f0e45964fc5ad991a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 20/83] fix: store open-ended time slices and those before zero

---
 zounds/persistence/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zounds/persistence/util.py b/zounds/persistence/util.py
index 43af291..79ce612 100644
--- a/zounds/persistence/util.py
+++ b/zounds/persistence/util.py
@@ -7,15 +7,19 @@ TIMEDELTA_DTYPE_RE = re.compile(r'\[(?P<dtype>[^\]]+)\]')
 
 
 def encode_timedelta(td):
+    if td is None:
+        return None
     dtype = TIMEDELTA_DTYPE_RE.search(str(td.dtype)).groupdict()['dtype']
     # base64 encoded value, encoded as a utf-8
-    encoded = base64.b64encode(td.astype(np.uint64).tostring()).decode()
+    encoded = base64.b64encode(td.astype(np.int64).tostring()).decode()
     return encoded, dtype
 
 
 def decode_timedelta(t):
+    if t is None:
+        return None
     try:
-        v = np.frombuffer(base64.b64decode(t[0]), dtype=np.uint64)[0]
+        v = np.frombuffer(base64.b64decode(t[0]), dtype=np.int64)[0]
         s = t[1]
         return np.timedelta64(int(v), s)
     except IndexError:
-- 
2.43.0


From 3c79381413c45afda9f7f8dfb4af2b08ce48d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 21/83] fix: content ranges end with the resource

---
 zounds/ui/contentrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/contentrange.py b/zounds/ui/contentrange.py
index e87b448..9d565f6 100644
--- a/zounds/ui/contentrange.py
+++ b/zounds/ui/contentrange.py
@@ -91,6 +91,7 @@ class ContentRange(object):
     def __str__(self):
         unit = self.unit
         start = self.start
-        stop = self.stop or self.total
         total = self.total
+        # a range may be requested that goes past the end of the resource
+        stop = total if self.stop is None else min(self.stop, total)
         return '{unit} {start}-{stop}/{total}'.format(**locals())
-- 
2.43.0


From 2489dc68da516c45583c6e68045d2ed866abb751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 22/83] fix: unit_scale of constant input is zero, not NaN

---
 zounds/loudness/loudness.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/loudness/loudness.py b/zounds/loudness/loudness.py
index de167bf..3c6d5f3 100644
--- a/zounds/loudness/loudness.py
+++ b/zounds/loudness/loudness.py
@@ -49,8 +49,7 @@ def instance_scale(x, axis=-1, epsilon=1e-8, return_maxes=False):
 def unit_scale(x, axis=None):
     scaled = x - x.min(axis=axis, keepdims=True)
     mx = scaled.max(axis=axis, keepdims=True)
-    scaled = np.divide(scaled, mx, where=max != 0)
-    return scaled
+    return scaled / np.where(mx != 0, mx, 1)
 
 
 class MuLaw(Node):
-- 
2.43.0


From 9dd955a2d50e44feb49064fe510ebdbf30134954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 23/83] fix: inverse_categorical keeps all but the categorical
 dimension

---
 zounds/timeseries/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/timeseries/functional.py b/zounds/timeseries/functional.py
index 8f5b2cf..aa3d910 100644
--- a/zounds/timeseries/functional.py
+++ b/zounds/timeseries/functional.py
@@ -42,4 +42,4 @@ def inverse_categorical(x, mu=255):
     indices = np.argmax(flat, axis=1).astype(np.float32)
     indices = (indices / mu) - 0.5
     inverted = inverse_mu_law(indices, mu=mu).reshape(x.shape[:-1])
-    return ArrayWithUnits(inverted, x.dimensions[:2])
+    return ArrayWithUnits(inverted, x.dimensions[:-1])
-- 
2.43.0


From b3b73de783fe2441892bef763159b40af867a385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 24/83] fix: inverse_categorical returns the samples
 categorical was given

---
 zounds/timeseries/functional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zounds/timeseries/functional.py b/zounds/timeseries/functional.py
index aa3d910..83d7a0d 100644
--- a/zounds/timeseries/functional.py
+++ b/zounds/timeseries/functional.py
@@ -16,10 +16,10 @@ def categorical(x, mu=255, normalize=True):
         x = np.divide(x, mx, where=mx != 0)
 
     # mu law compression
-    x = mu_law(x)
+    x = mu_law(x, mu=mu)
 
     # translate and scale to [0, 1]
-    x = (x - x.min()) * 0.5
+    x = (x + 1) * 0.5
 
     # convert to the range [0, 255]
     x = (x * mu).astype(np.uint8)
@@ -40,6 +40,6 @@ def inverse_categorical(x, mu=255):
     """
     flat = x.reshape((-1, x.shape[-1]))
     indices = np.argmax(flat, axis=1).astype(np.float32)
-    indices = (indices / mu) - 0.5
+    indices = ((indices / mu) - 0.5) * 2
     inverted = inverse_mu_law(indices, mu=mu).reshape(x.shape[:-1])
     return ArrayWithUnits(inverted, x.dimensions[:-1])
-- 
2.43.0


From cccf101fc23755067f97e766aeab21890dc48874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 25/83] fix: categorical normalizes by the largest amplitude

---
 zounds/timeseries/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/functional.py b/zounds/timeseries/functional.py
index 83d7a0d..087fada 100644
--- a/zounds/timeseries/functional.py
+++ b/zounds/timeseries/functional.py
@@ -12,8 +12,9 @@ def categorical(x, mu=255, normalize=True):
 
     if normalize:
         # normalize the signal
-        mx = x.max()
-        x = np.divide(x, mx, where=mx != 0)
+        mx = np.abs(x).max()
+        if mx != 0:
+            x = x / mx
 
     # mu law compression
     x = mu_law(x, mu=mu)
-- 
2.43.0


From c2b417ab2c56a469bb20c35ee259b8c023b1b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 26/83] fix: MeanStdNormalization maps features that never vary
 to zero

---
 zounds/learn/preprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 576bb75..d481924 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -426,7 +426,8 @@ class MeanStdNormalization(Preprocessor):
     def _forward_func(self):
         def x(d, mean=None, std=None):
             import numpy as np
-            return np.divide(d - mean, std, where=std != 0)
+            varies = np.asarray(std) != 0
+            return varies * (d - mean) / np.where(varies, std, 1)
 
         return x
 
-- 
2.43.0


From 4d15e1aa6cce0a86e65f6b9e52db270fcf408556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 27/83] fix: InstanceScaling of a silent example is silence

---
 zounds/learn/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index d481924..792ff41 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -470,7 +470,7 @@ class InstanceScaling(Preprocessor):
             # TODO: it should be possible to hand this intermediate value off
             # to inversion data, and to ignore the extra
             m = np.max(np.abs(d), axis=axes, keepdims=True)
-            output = max_value * np.divide(d, m, where=m != 0)
+            output = max_value * np.divide(d, np.where(m != 0, m, 1))
             return ForwardResult(output, max=m, max_value=max_value)
 
         return x
-- 
2.43.0


From a90b03bacec8173ef9b11efa62f47b7c672b4be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 28/83] fix: example_wise_unit_norm of a zero example is zero

---
 zounds/learn/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/learn/functional.py b/zounds/learn/functional.py
index 9cda320..263ca82 100644
--- a/zounds/learn/functional.py
+++ b/zounds/learn/functional.py
@@ -27,7 +27,7 @@ def example_wise_unit_norm(x, return_norms=False):
     # other axes as features
     x = x.reshape((len(x), -1))
     norms = np.linalg.norm(x, axis=-1, keepdims=True)
-    normed = np.divide(x, norms, where=norms != 0)
+    normed = np.divide(x, np.where(norms != 0, norms, 1))
     normed = normed.reshape(original_shape)
 
     if return_norms:
-- 
2.43.0


From 55551b4e6b229a2fba62f7ce13ee8ba31169a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 29/83] fix: operations over versioned arguments have a version

---
 zounds/learn/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 792ff41..6766608 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -31,7 +31,7 @@ class Op(object):
         h = hashlib.md5(self._func)
         for v in self._kwargs.values():
             try:
-                h.update(v.version)
+                h.update(v.version.encode())
             except AttributeError:
                 h.update(np.array(v))
         return h.hexdigest()
-- 
2.43.0


From d70bd57711d84b38281603fa5ccae7cf31f939a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 30/83] fix: the version of a Slicer depends on its slice

---
 zounds/learn/preprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 6766608..8e0376b 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -33,7 +33,9 @@ class Op(object):
             try:
                 h.update(v.version.encode())
             except AttributeError:
-                h.update(np.array(v))
+                # the buffer of an array of objects holds their addresses
+                h.update(repr(v).encode() if isinstance(v, slice)
+                         else np.array(v))
         return h.hexdigest()
 
     def __getattr__(self, key):
-- 
2.43.0


From 6594b819007701698b29fd1caf8d3613367f4358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 31/83] fix: a reservoir is created once when threads add to it

---
 zounds/learn/random_samples.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index fcf2e01..6494c82 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -3,6 +3,7 @@ from zounds.core import ArrayWithUnits, IdentityDimension
 import numpy as np
 from multiprocessing.pool import ThreadPool
 from os import cpu_count
+from threading import Lock
 
 
 class Reservoir(object):
@@ -19,6 +20,7 @@ class Reservoir(object):
         self.arr = None
         self.indices = set()
         self.dtype = dtype
+        self._lock = Lock()
 
     def __len__(self):
         return len(self.indices)
@@ -27,17 +29,20 @@ class Reservoir(object):
         return float(len(self)) / self.nsamples
 
     def _init_arr(self, samples):
-        if self.arr is not None:
-            return
+        with self._lock:
+            if self.arr is not None:
+                return
+
+            shape = (self.nsamples,) + samples.shape[1:]
+            arr = np.zeros(shape, dtype=self.dtype or samples.dtype)
 
-        shape = (self.nsamples,) + samples.shape[1:]
-        self.arr = np.zeros(shape, dtype=self.dtype or samples.dtype)
+            try:
+                arr = ArrayWithUnits(
+                    arr, (IdentityDimension(),) + samples.dimensions[1:])
+            except AttributeError:
+                pass
 
-        try:
-            self.arr = ArrayWithUnits(
-                self.arr, (IdentityDimension(),) + samples.dimensions[1:])
-        except AttributeError:
-            pass
+            self.arr = arr
 
     def add(self, samples, indices=None):
         self._init_arr(samples)
-- 
2.43.0


From e581a0b361f7a7c3b169f80fda24d6d4085f2615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 32/83] fix: an empty list selects nothing

---
 zounds/core/axis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 2411b41..1284904 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -312,8 +312,7 @@ class ArrayWithUnits(np.ndarray):
             t = set([x.__class__ for x in a])
             if len(t) > 1:
                 raise ValueError('a must be homogeneous')
-            t = list(t)[0]
-            if t == slice:
+            if t == {slice}:
                 return a
             else:
                 return a,
-- 
2.43.0


From d9fa0691e5acfee73019555c2c2566dbaec9a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 33/83] fix: every sample of a stream is equally likely in a
 reservoir sample

---
 zounds/learn/random_samples.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index 6494c82..2882cbc 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -265,9 +265,12 @@ class ReservoirSampler(Node):
         remaining = len(data[diff:])
         if not remaining:
             return
-        indices = np.random.random_integers(0, self._index, size=remaining)
-        indices = indices[indices < self._nsamples]
-        self._r[indices, ...] = data[diff:][list(range(len(indices)))]
+        # item i of the stream replaces one of the samples with probability
+        # nsamples / (i + 1)
+        seen = np.arange(self._index, self._index + remaining) + 1
+        indices = np.random.randint(0, seen)
+        chosen = indices < self._nsamples
+        self._r[indices[chosen], ...] = data[diff:][chosen]
         self._index += remaining
 
     def _dequeue(self):
-- 
2.43.0


From e3bb5408b7a1d45476692321df7a159b171eefe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 34/83] fix: threads do not lose each other's samples in a
 multiplexed reservoir

---
 zounds/learn/random_samples.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index 2882cbc..b47c95f 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -94,6 +94,7 @@ class MultiplexedReservoir(object):
         self.dtype = dtype
         self.reservoir = None
         self.nsamples = nsamples
+        self._lock = Lock()
 
     def _init_dict(self, samples):
         if self.reservoir is not None:
@@ -111,15 +112,18 @@ class MultiplexedReservoir(object):
                     .format(keys=list(self.reservoir.keys())))
 
     def add(self, samples):
-        self._init_dict(samples)
-        self._check_sample_keys(samples)
+        # rows of different features belong together, so samples are added for
+        # all of them before another thread gets its turn
+        with self._lock:
+            self._init_dict(samples)
+            self._check_sample_keys(samples)
 
-        indices = None
-        for k, v in samples.items():
-            if indices is None:
-                indices = np.random.randint(0, self.nsamples, len(v))
+            indices = None
+            for k, v in samples.items():
+                if indices is None:
+                    indices = np.random.randint(0, self.nsamples, len(v))
 
-            self.reservoir[k].add(v, indices=indices)
+                self.reservoir[k].add(v, indices=indices)
 
     def get(self):
         return dict((k, v.get()) for k, v in self.reservoir.items())
-- 
2.43.0


From 14150ea0991cbeda5345cdda9c799b1c431004f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 35/83] fix: Flux yields a series with the time dimension only

---
 zounds/segment/onset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/segment/onset.py b/zounds/segment/onset.py
index 0c9c3e3..30ccf9d 100644
--- a/zounds/segment/onset.py
+++ b/zounds/segment/onset.py
@@ -124,7 +124,7 @@ class Flux(Node):
         diff = np.diff(data, axis=0)
 
         yield ArrayWithUnits(
-            np.linalg.norm(diff, axis=-1), data.dimensions)
+            np.linalg.norm(diff, axis=-1), data.dimensions[:-1])
 
 
 class BasePeakPicker(Node):
-- 
2.43.0


From 120680d9e70394c025ccdf8c1b321f17286019b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 36/83] fix: Sum sums what it is given

---
 zounds/basic/basic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/basic/basic.py b/zounds/basic/basic.py
index 31349d2..3fc0ddb 100644
--- a/zounds/basic/basic.py
+++ b/zounds/basic/basic.py
@@ -89,8 +89,7 @@ class Sum(Node):
     def _process(self, data):
         # TODO: This should be generalized.  Sum will have this same problem
         try:
-            # data = np.sum(data, axis=self._axis)
-            data = np.sum(axis=self._axis)
+            data = np.sum(data, axis=self._axis)
         except ValueError:
             print('ERROR')
             data = data
-- 
2.43.0


From 0ffe5041c45e30daf921193c32290c464659e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 37/83] fix: DCTIV keeps the complex product, so that it is a
 type IV transform, and its own inverse

---
 zounds/spectral/spectral.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/spectral.py b/zounds/spectral/spectral.py
index 22ef1a6..b590b4c 100644
--- a/zounds/spectral/spectral.py
+++ b/zounds/spectral/spectral.py
@@ -109,8 +109,8 @@ class DCTIV(Node):
     def _process_raw(self, data):
         l = data.shape[1]
         tf = np.arange(0, l)
-        z = np.zeros((len(data), l * 2))
-        z[:, :l] = (data * np.exp(-1j * np.pi * tf / 2 / l)).real
+        z = np.zeros((len(data), l * 2), dtype=np.complex128)
+        z[:, :l] = data * np.exp(-1j * np.pi * tf / 2 / l)
         z = np.fft.fft(z)[:, :l]
         raw = np.sqrt(2 / l) * \
               (z * np.exp(-1j * np.pi * (tf + 0.5) / 2 / l)).real
-- 
2.43.0


From 51f9a323e4a5ceb54e65e3d6917370027b223327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 38/83] fix: DCT and DCTIV recognise the sample rate of windows
 of any size

---
 zounds/spectral/spectral.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/spectral.py b/zounds/spectral/spectral.py
index b590b4c..aa19a9b 100644
--- a/zounds/spectral/spectral.py
+++ b/zounds/spectral/spectral.py
@@ -81,7 +81,8 @@ class DCT(Node):
         transformed = dct(data, norm='ortho', axis=self._axis)
 
         sr = audio_sample_rate(
-            int(data.shape[1] / data.dimensions[0].duration_in_seconds))
+            int(np.round(
+                data.shape[1] / data.dimensions[0].duration_in_seconds)))
         scale = LinearScale.from_sample_rate(
             sr, transformed.shape[-1], always_even=self.scale_always_even)
 
@@ -119,7 +120,8 @@ class DCTIV(Node):
     def _process(self, data):
         raw = self._process_raw(data)
         sr = audio_sample_rate(
-            int(data.shape[1] / data.dimensions[0].duration_in_seconds))
+            int(np.round(
+                data.shape[1] / data.dimensions[0].duration_in_seconds)))
         scale = LinearScale.from_sample_rate(
             sr, data.shape[1], always_even=self.scale_always_even)
         yield ArrayWithUnits(
-- 
2.43.0


From da1333feb7c5ad2b4a1e79160b869039f9ec7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:25 +0000
Subject: [PATCH 39/83] fix: fft pads and describes the axis it transforms, not
 only the last one of two

---
 zounds/spectral/functional.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index e33d6a0..696a032 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -31,16 +31,17 @@ def fft(x, axis=-1, padding_samples=0):
             axis before performing the FFT
     """
     if padding_samples > 0:
+        padding_shape = list(x.shape)
+        padding_shape[axis] = padding_samples
         padded = np.concatenate(
-            [x, np.zeros((len(x), padding_samples), dtype=x.dtype)],
-            axis=axis)
+            [x, np.zeros(padding_shape, dtype=x.dtype)], axis=axis)
     else:
         padded = x
 
     transformed = np.fft.rfft(padded, axis=axis, norm='ortho')
 
     sr = audio_sample_rate(int(Seconds(1) / x.dimensions[axis].frequency))
-    scale = LinearScale.from_sample_rate(sr, transformed.shape[-1])
+    scale = LinearScale.from_sample_rate(sr, transformed.shape[axis])
     new_dimensions = list(x.dimensions)
     new_dimensions[axis] = FrequencyDimension(scale)
     return ArrayWithUnits(transformed, new_dimensions)
-- 
2.43.0


From abd7d7daddb80d73b5da95d4a89800dc8a19a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 40/83] fix: stft works without a window

---
 zounds/spectral/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index 696a032..167e1d8 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -65,7 +65,8 @@ def stft(x, window_sample_rate=HalfLapped(), window=HanningWindowingFunc()):
             '(IdentityDimension, TimeDimension)')
 
     window = window or IdentityWindowingFunc()
-    windowed = arr * window._wdata(arr.shape[-1])
+    wdata = window._wdata(arr.shape[-1])
+    windowed = arr if wdata is None else arr * wdata
     return fft(windowed)
 
 
-- 
2.43.0


From a4eca87226575fb09de2495e67c11c9814857aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:00 +0000
Subject: [PATCH 41/83] fix: windowing integer samples does not round the
 window down to zero

---
 zounds/spectral/sliding_window.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/zounds/spectral/sliding_window.py b/zounds/spectral/sliding_window.py
index 4d419d1..c7c47df 100644
--- a/zounds/spectral/sliding_window.py
+++ b/zounds/spectral/sliding_window.py
@@ -65,24 +65,24 @@ class WindowingFunc(object):
             self._cache[size] = window
             return window
 
+    def _wdata_like(self, arr):
+        wdata = self._wdata(arr.shape[-1])
+        if wdata is None or not np.issubdtype(arr.dtype, np.inexact):
+            return wdata
+        return wdata.astype(arr.dtype)
+
     def __array_ufunc__(self, ufunc, method, *args, **kwargs):
 
         if args[0] is self:
             second_arg = args[1]
-            size = second_arg.shape[-1]
-            dtype = second_arg.dtype
-            wdata = self._wdata(size)
-            if wdata is None:
+            first_arg = self._wdata_like(second_arg)
+            if first_arg is None:
                 return second_arg
-            first_arg = wdata.astype(dtype)
         else:
             first_arg = args[0]
-            size = first_arg.shape[-1]
-            dtype = first_arg.dtype
-            wdata = self._wdata(size)
-            if wdata is None:
+            second_arg = self._wdata_like(first_arg)
+            if second_arg is None:
                 return first_arg
-            second_arg = wdata.astype(dtype)
 
         return getattr(ufunc, method)(first_arg, second_arg, **kwargs)
 
-- 
2.43.0


From af85e3e2af38a4e06c7df44f9fbcd79405832c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 42/83] fix: FrequencyAdaptive.square adds frames up where they
 overlap, for any overlap

---
 zounds/spectral/frequencyadaptive.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/zounds/spectral/frequencyadaptive.py b/zounds/spectral/frequencyadaptive.py
index 6b0fdd8..a51c760 100644
--- a/zounds/spectral/frequencyadaptive.py
+++ b/zounds/spectral/frequencyadaptive.py
@@ -128,10 +128,9 @@ class FrequencyAdaptive(ArrayWithUnits):
             # no overlap add is necessary
             return ArrayWithUnits(stacked, [td, fdim])
 
-        step_size_samples = int(n_coeffs * overlap_ratio)
+        step_size_samples = int(np.round(n_coeffs * (1 - overlap_ratio)))
 
-        first_dim = int(np.round(
-            (stacked.shape[0] * overlap_ratio) + (n_coeffs * overlap_ratio)))
+        first_dim = ((len(arr) - 1) * step_size_samples) + n_coeffs
 
         output = ArrayWithUnits(
             np.zeros((first_dim, self.n_bands)),
-- 
2.43.0


From 6a90b0eca9f194373a0aa0304b7bae0de5954e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 43/83] fix: squeezing an array only drops axes of size one,
 not empty ones

---
 zounds/core/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 1284904..ae74bd3 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -99,7 +99,7 @@ class ArrayWithUnits(np.ndarray):
             [IdentityDimension() for _ in shape])
 
     def squeeze(self):
-        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] > 1]
+        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] != 1]
         return ArrayWithUnits(
             super().reshape([s for s, _ in zipped]),
             [d for _, d in zipped])
-- 
2.43.0


From ad4dff748ddf64889de2eabdc97a32e7ebd174aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 44/83] fix: summing up several axes, or all of them with
 keepdims, describes the axes that remain

---
 zounds/core/axis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index ae74bd3..2aa3077 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -128,10 +128,14 @@ class ArrayWithUnits(np.ndarray):
         return self.__class__.zeros(self)
 
     def _apply_reduction_to_dimensions(self, result, axis, keepdims):
+        ndims = len(self.dimensions)
+
         if axis is None:
+            axis = tuple(range(ndims))
+
+        if np.ndim(result) == 0:
             return result
 
-        ndims = len(self.dimensions)
         reduced_axes = set([ndims + a if a < 0 else a for a in tuplify(axis)])
         all_axes = set(range(ndims))
 
-- 
2.43.0


From 0e70c7bf06e2100f78c14dbdaf1980609981c2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 45/83] fix: the units of a dot product are those of the axes
 that remain

---
 zounds/core/axis.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 2aa3077..8193038 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -161,7 +161,14 @@ class ArrayWithUnits(np.ndarray):
 
     def dot(self, b):
         result = super(ArrayWithUnits, self).dot(b)
-        return self.__class__(result, self.dimensions[:result.ndim])
+        # the last axis of this array is gone, and all axes of the other one
+        # but the one it was matched up with remain
+        other_dims = getattr(b, 'dimensions', None) or \
+            [IdentityDimension()] * np.ndim(b)
+        dims = list(self.dimensions[:-1])
+        dims += [d for i, d in enumerate(other_dims)
+                 if i != max(0, len(other_dims) - 2)]
+        return ArrayWithUnits(result, dims)
 
     def packbits(self, axis=None):
         arr = np.packbits(self, axis=axis)
-- 
2.43.0


From 2c721db87e3140f243b5294a5995219447dc3dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 46/83] fix: reordering axes reorders their units, too

---
 zounds/core/axis.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 8193038..d774725 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -67,6 +67,20 @@ class ArrayWithUnits(np.ndarray):
         arr = super(ArrayWithUnits, self).T
         return ArrayWithUnits(arr, self.dimensions[::-1])
 
+    def transpose(self, *axes):
+        arr = super(ArrayWithUnits, self).transpose(*axes)
+        if len(axes) == 1 and not isinstance(axes[0], (int, np.integer)):
+            axes = axes[0]
+        if not axes:
+            axes = range(self.ndim)[::-1]
+        return ArrayWithUnits(arr, [self.dimensions[i] for i in axes])
+
+    def swapaxes(self, axis1, axis2):
+        arr = super(ArrayWithUnits, self).swapaxes(axis1, axis2)
+        dims = list(self.dimensions)
+        dims[axis1], dims[axis2] = dims[axis2], dims[axis1]
+        return ArrayWithUnits(arr, dims)
+
     def kwargs(self):
         return self.__dict__
 
-- 
2.43.0


From 59746b6e72887d3b876fdbefb884839ffa53390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 47/83] fix: flattened arrays do not keep the units of axes
 they no longer have

---
 zounds/core/axis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index d774725..0ab1b91 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -191,7 +191,11 @@ class ArrayWithUnits(np.ndarray):
     def __array_finalize__(self, obj):
         if obj is None:
             return
-        self.dimensions = getattr(obj, 'dimensions', None)
+        dimensions = getattr(obj, 'dimensions', None)
+        if dimensions is not None and len(dimensions) != self.ndim:
+            # it is unknown which axes are left, e.g., when flattening
+            dimensions = tuple(IdentityDimension() for _ in range(self.ndim))
+        self.dimensions = dimensions
 
     def __array_wrap__(self, obj, context=None):
         if len(self.dimensions) != obj.ndim:
-- 
2.43.0


From 8fea75073317a54d077cff6835a3549533ce286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:03 +0000
Subject: [PATCH 48/83] fix: sine waves of any frequencies have the same number
 of samples, that of the duration

---
 zounds/synthesize/synthesize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/synthesize/synthesize.py b/zounds/synthesize/synthesize.py
index 43e183b..2cc65e7 100644
--- a/zounds/synthesize/synthesize.py
+++ b/zounds/synthesize/synthesize.py
@@ -557,8 +557,8 @@ class SineSynthesizer(object):
         scaling = 1 / len(freqs)
         sr = int(self.samplerate)
         cps = freqs / sr
-        ts = (duration / Seconds(1)) * sr
-        ranges = np.array([np.arange(0, ts * c, c) for c in cps])
+        n_samples = int(duration / self.samplerate.frequency)
+        ranges = np.outer(cps, np.arange(n_samples))
         raw = (np.sin(ranges * (2 * np.pi)) * scaling).sum(axis=0)
         return AudioSamples(raw, self.samplerate)
 
-- 
2.43.0


From 5a145ae8b319c9b35e556538fe420748098e98f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:03 +0000
Subject: [PATCH 49/83] fix: ticks and noise last as long as silence of the
 same duration, and ticks do not drift

---
 zounds/synthesize/synthesize.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/zounds/synthesize/synthesize.py b/zounds/synthesize/synthesize.py
index 2cc65e7..f52c085 100644
--- a/zounds/synthesize/synthesize.py
+++ b/zounds/synthesize/synthesize.py
@@ -605,10 +605,9 @@ class TickSynthesizer(object):
         tick = np.random.uniform(low=-1., high=1., size=int(sr * .1))
         tick *= np.linspace(1, 0, len(tick))
         # create silence
-        samples = np.zeros(int(sr * (duration / Seconds(1))))
-        ticks_per_second = Seconds(1) / tick_frequency
+        samples = np.zeros(int(duration / self.samplerate.frequency))
         # introduce periodic ticking sound
-        step = int(sr // ticks_per_second)
+        step = int(tick_frequency / self.samplerate.frequency)
         for i in range(0, len(samples), step):
             size = len(samples[i:i + len(tick)])
             samples[i:i + len(tick)] += tick[:size]
@@ -648,9 +647,8 @@ class NoiseSynthesizer(object):
         Args:
             duration (numpy.timedelta64): The duration of the synthesized sound
         """
-        sr = self.samplerate.samples_per_second
-        seconds = duration / Seconds(1)
-        samples = np.random.uniform(low=-1., high=1., size=int(sr * seconds))
+        n_samples = int(duration / self.samplerate.frequency)
+        samples = np.random.uniform(low=-1., high=1., size=n_samples)
         return AudioSamples(samples, self.samplerate)
 
 
-- 
2.43.0


From 474fd5bd8886e16f62041d518bc3688a1594c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:40 +0000
Subject: [PATCH 50/83] fix: searching for at least as many results as there
 are codes yields all of them

---
 zounds/index/hammingdb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 4576b7f..c21b5d1 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -184,6 +184,9 @@ class HammingDb(object):
         if codes.ndim == 1:
             codes = codes[..., None]
 
+        if not len(codes):
+            return
+
         if not multithreaded:
             scores = packed_hamming_distance(query, codes)
         else:
@@ -197,7 +200,8 @@ class HammingDb(object):
         # argpartition will ensure that the lowest scores will all be
         # withing the first n_results elements, but makes no guarantees
         # about the ordering *within* n_results
-        partitioned_indices = np.argpartition(scores, n_results)[:n_results]
+        partitioned_indices = np.argpartition(
+            scores, min(n_results, len(scores) - 1))[:n_results]
 
         if sort:
             # since argpartition doesn't guarantee that the results are
-- 
2.43.0


From 4bf5865d3890cf36d35c7c7cfc5dcf2dd4506119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:04 +0000
Subject: [PATCH 51/83] fix: searches and appends from several threads do not
 get mixed up

---
 zounds/index/hammingdb.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index c21b5d1..8707094 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -4,6 +4,7 @@ import numpy as np
 from multiprocessing.dummy import Pool as ThreadPool
 from multiprocessing import cpu_count
 import os
+import threading
 import binascii
 
 
@@ -44,9 +45,7 @@ class HammingDb(object):
             self.code_size = code_size
 
         self.index = self.env.open_db(b'index')
-        self._append_buffer = self._recarray(1)
-        self._code_bytearray = bytearray(b'a' * self.code_size)
-        self._code_buffer = np.frombuffer(self._code_bytearray, dtype=np.uint64)
+        self._lock = threading.RLock()
         self._codes = None
         self._ids = set()
         self._catch_up_on_in_memory_store()
@@ -76,7 +75,7 @@ class HammingDb(object):
 
     def _catch_up_on_in_memory_store(self):
         self._initialize_in_memory_store()
-        with self.env.begin() as txn:
+        with self._lock, self.env.begin() as txn:
             cursor = txn.cursor(db=self.index)
             for i, bundle in enumerate(cursor.iternext(keys=True, values=True)):
                 _id, value = bundle
@@ -111,8 +110,7 @@ class HammingDb(object):
         self._codes = Growable(self._recarray(initial_size))
 
     def _np_code(self, code):
-        self._code_bytearray[:] = code
-        return self._code_buffer
+        return np.frombuffer(code, dtype=np.uint64)
 
     def _validate_code_size(self, code):
         code_len = len(code)
@@ -125,7 +123,7 @@ class HammingDb(object):
         if self.writeonly:
             return
 
-        arr = self._append_buffer
+        arr = self._recarray(1)
         arr[0]['id'] = _id
         arr[0]['code'] = self._np_code(code)
         self._codes.append(arr)
@@ -142,17 +140,20 @@ class HammingDb(object):
         self._validate_code_size(code)
         self._initialize_in_memory_store()
 
-        with self.env.begin(write=True) as txn:
-            _id = self._new_id()
-            try:
-                code = code.encode()
-            except AttributeError:
-                pass
-            try:
-                data = data.encode()
-            except AttributeError:
-                pass
-            txn.put(_id, code + data, db=self.index)
+        _id = self._new_id()
+        try:
+            code = code.encode()
+        except AttributeError:
+            pass
+        try:
+            data = data.encode()
+        except AttributeError:
+            pass
+
+        with self._lock:
+            with self.env.begin(write=True) as txn:
+                txn.put(_id, code + data, db=self.index)
+            # only what has been committed can be found by a search
             self._add_code(_id, code)
 
     def _random_code(self):
-- 
2.43.0


From 68ef076fb5612a4ea4b3c3c7cec68bc79f439b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 52/83] fix: a random search of an empty database does not loop
 forever

---
 zounds/index/hammingdb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 8707094..ff845cf 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -157,6 +157,9 @@ class HammingDb(object):
             self._add_code(_id, code)
 
     def _random_code(self):
+        if not len(self):
+            raise ValueError('the database is empty')
+
         with self.env.begin() as txn:
             with txn.cursor(self.index) as cursor:
                 code = None
-- 
2.43.0


From 2a3f13682971814c7ac6a25dbcdf7b7eeec21138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:02 +0000
Subject: [PATCH 53/83] fix: the size of codes given as text is that of their
 encoding

---
 zounds/index/hammingdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index ff845cf..3bfe115 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -137,14 +137,14 @@ class HammingDb(object):
         return binascii.hexlify(os.urandom(16))
 
     def append(self, code, data):
-        self._validate_code_size(code)
-        self._initialize_in_memory_store()
-
-        _id = self._new_id()
         try:
             code = code.encode()
         except AttributeError:
             pass
+        self._validate_code_size(code)
+        self._initialize_in_memory_store()
+
+        _id = self._new_id()
         try:
             data = data.encode()
         except AttributeError:
-- 
2.43.0


From 8e0f5cc346fcbe4256828405f37c13cd0b8d1f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 54/83] fix: an index can resume, and keeps the timestamps of
 live events

---
 zounds/index/index.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 9addb8d..a5363dc 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -138,14 +138,18 @@ class HammingIndex(object):
                 encoded_ts['extra_data'] = extra_data
             self._init_hamming_db(code)
             self.hamming_db.append(code, json.dumps(encoded_ts))
+            try:
+                timestamp = timestamp.encode()
+            except AttributeError:
+                pass
             self.hamming_db.set_metadata(b'timestamp', timestamp)
 
     def _listen(self, raise_when_empty=False):
 
         if self.hamming_db is not None:
-            last_timestamp = self.hamming_db.get_metadata('timestamp') or ''
+            last_timestamp = self.hamming_db.get_metadata(b'timestamp') or b''
         else:
-            last_timestamp = ''
+            last_timestamp = b''
 
         if not self.event_log:
             raise ValueError(
-- 
2.43.0


From 49dad8d1b9eccad5a764f7935350c2774614333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:41 +0000
Subject: [PATCH 55/83] fix: an event counts as dealt with once all of its
 slices are in the index

---
 zounds/index/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index a5363dc..0449789 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -138,6 +138,9 @@ class HammingIndex(object):
                 encoded_ts['extra_data'] = extra_data
             self._init_hamming_db(code)
             self.hamming_db.append(code, json.dumps(encoded_ts))
+
+        # the event has only been dealt with once all slices are there
+        if self.hamming_db is not None:
             try:
                 timestamp = timestamp.encode()
             except AttributeError:
-- 
2.43.0


From b04e1de54e296d4a69d2cf1f8d9d211b6a48497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 56/83] fix: the size of the database of an index is the one
 asked for

---
 zounds/index/index.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 0449789..4516318 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -52,7 +52,10 @@ class HammingIndex(object):
 
         try:
             self.hamming_db = HammingDb(
-                self.hamming_db_path, code_size=None, writeonly=self.writeonly)
+                self.hamming_db_path,
+                map_size=self.db_size_bytes,
+                code_size=None,
+                writeonly=self.writeonly)
         except ValueError:
             self.hamming_db = None
 
@@ -101,7 +104,10 @@ class HammingIndex(object):
             return
         code_size = len(code) if code else None
         self.hamming_db = HammingDb(
-            self.hamming_db_path, code_size=code_size, writeonly=self.writeonly)
+            self.hamming_db_path,
+            map_size=self.db_size_bytes,
+            code_size=code_size,
+            writeonly=self.writeonly)
 
     def _synchronously_process_events(self):
         self._listen(raise_when_empty=True)
-- 
2.43.0


From dbf1f8b2f4b17414b431a60e3d015121c93164f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 57/83] fix: positions in a streamed file are those of the
 whole stream, also once parts of it were discarded

---
 zounds/soundfile/audiostream.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index 96b598f..21a031c 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -1,5 +1,5 @@
 from io import BytesIO
-from os import SEEK_END
+from os import SEEK_SET, SEEK_END
 from soundfile import SoundFile
 from zounds.timeseries import audio_sample_rate, AudioSamples
 from .byte_depth import chunk_size_samples
@@ -129,6 +129,8 @@ class MemoryBuffer(object):
         self._content_length = content_length
         self._buf = BytesIO()
         self._max_size = max_size
+        # the number of bytes that have been discarded
+        self._offset = 0
         self.tell = self._tell
 
         self._total_bytes_written = 0
@@ -152,6 +154,7 @@ class MemoryBuffer(object):
             new_buf = BytesIO()
             new_buf.write(self._buf.read())
             self._buf = new_buf
+            self._offset += read_pos
             read_pos = 0
         self._buf.seek(0, 2)
         self._buf.write(data)
@@ -159,7 +162,7 @@ class MemoryBuffer(object):
         return len(data)
 
     def _tell(self):
-        return self._buf.tell()
+        return self._offset + self._buf.tell()
 
     def _tell_end(self):
         self.tell = self._tell
@@ -170,6 +173,9 @@ class MemoryBuffer(object):
             # KLUDGE: PySoundfile no longer supports __len__, which means that
             # this stateful garbage is required.
             self.tell = self._tell_end
+        elif whence == SEEK_SET:
+            # positions are those of the whole stream
+            offset -= self._offset
         self._buf.seek(offset, whence)
 
     def flush(self):
-- 
2.43.0


From 6db2eac6fa228b4ccd6b86a4cd33efab60126b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:36 +0000
Subject: [PATCH 58/83] fix: one item that cannot be processed keeps no other
 from being ingested

---
 zounds/datasets/ingest.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/zounds/datasets/ingest.py b/zounds/datasets/ingest.py
index 8f01e32..3831630 100644
--- a/zounds/datasets/ingest.py
+++ b/zounds/datasets/ingest.py
@@ -5,13 +5,16 @@ from os import cpu_count
 
 def ingest_one(arg):
     metadata, cls, skip_if_exists = arg
-    request = metadata.request
-    url = request.url
-    if skip_if_exists and cls.exists(request.url):
-        print('already processed {request.url}'.format(**locals()))
-        return
 
+    # a single item that cannot be processed should not keep any of the others
+    # from being ingested
     try:
+        request = metadata.request
+        url = request.url
+        if skip_if_exists and cls.exists(request.url):
+            print('already processed {request.url}'.format(**locals()))
+            return
+
         print('processing {request.url}'.format(**locals()))
         cls.process(meta=metadata, _id=url)
     except Exception as e:
@@ -40,12 +43,15 @@ def ingest(
     cls_args = repeat(cls)
     skip_args = repeat(skip_if_exists)
 
-    map_func(ingest_one, zip(dataset, cls_args, skip_args))
-
-    if pool is not None:
-        # if we're ingesting using multiple processes or threads, the processing
-        # should be parallel, but this method should be synchronous from the
-        # caller's perspective
-        pool.close()
-        pool.join()
+    try:
+        # results are produced lazily
+        for _ in map_func(ingest_one, zip(dataset, cls_args, skip_args)):
+            pass
+    finally:
+        if pool is not None:
+            # if we're ingesting using multiple processes or threads, the
+            # processing should be parallel, but this method should be
+            # synchronous from the caller's perspective
+            pool.close()
+            pool.join()
 
-- 
2.43.0


From 2fd337769461225e5decbc7f98546393cd4ee754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 59/83] fix: cached downloads are complete or not there

---
 zounds/datasets/cache.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zounds/datasets/cache.py b/zounds/datasets/cache.py
index 7146af3..4fa633a 100644
--- a/zounds/datasets/cache.py
+++ b/zounds/datasets/cache.py
@@ -12,8 +12,10 @@ class DataSetCache(object):
             os.makedirs(path)
 
     def __iter__(self):
-        for request in self.dataset:
-            h = hashlib.md5(request.url).hexdigest()
+        for item in self.dataset:
+            # datasets are made of metadata
+            request = getattr(item, 'request', item)
+            h = hashlib.md5(request.url.encode()).hexdigest()
             p = os.path.join(self.path, h)
 
             if not os.path.exists(p):
@@ -23,8 +25,11 @@ class DataSetCache(object):
 
                 resp.raise_for_status()
 
-                with open(p, 'wb') as f:
+                # only complete downloads may be found under the final name
+                partial = p + '.part'
+                with open(partial, 'wb') as f:
                     for chunk in resp.iter_content(1024):
                         f.write(chunk)
+                os.rename(partial, p)
 
             yield p
-- 
2.43.0


From 9fba4f3a02cf9355153515e340b74f7379cbfeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:37 +0000
Subject: [PATCH 60/83] fix: downloaded files are complete or not there

---
 zounds/datasets/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/datasets/util.py b/zounds/datasets/util.py
index 09a63b0..5c11ffc 100644
--- a/zounds/datasets/util.py
+++ b/zounds/datasets/util.py
@@ -9,12 +9,16 @@ def ensure_local_file(remote_url, local_path, chunksize=4096):
     local = os.path.join(local_path, filename)
 
     if not os.path.exists(local):
-        with open(local, 'wb') as f:
+        # only complete downloads may be found under the final name
+        partial = local + '.part'
+        with open(partial, 'wb') as f:
             resp = requests.get(remote_url, stream=True)
+            resp.raise_for_status()
             total_bytes = int(resp.headers['Content-Length'])
             for i, chunk in enumerate(resp.iter_content(chunk_size=chunksize)):
                 f.write(chunk)
                 progress = ((i * chunksize) / float(total_bytes)) * 100
                 print('{remote_url} {progress:.2f}% complete'.format(**locals()))
+        os.rename(partial, local)
 
     return local
-- 
2.43.0


From 5be1974f42450a6b1834d0a8db7dd0abbb7a6df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:04 +0000
Subject: [PATCH 61/83] fix: a search of freesound ends

---
 zounds/datasets/freesound.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/zounds/datasets/freesound.py b/zounds/datasets/freesound.py
index 20ceaf7..153cc5a 100644
--- a/zounds/datasets/freesound.py
+++ b/zounds/datasets/freesound.py
@@ -1,5 +1,6 @@
 import requests
 import time
+from itertools import islice
 from zounds.soundfile import AudioMetaData
 
 
@@ -70,7 +71,6 @@ class FreeSoundSearch(object):
 
     def get_by_id(self, freesound_id):
         data = self._get_metadata_by_id(freesound_id)
-        print(data)
         return self._freesound_to_audio_metadata(data)
 
     def _iter_results(self, link=None):
@@ -94,11 +94,10 @@ class FreeSoundSearch(object):
             # prevent 429 "Too Many Requests" responses
             time.sleep(self.delay)
 
-        for r in self._iter_results(results['next']):
-            yield r
+        if results['next']:
+            for r in self._iter_results(results['next']):
+                yield r
 
     def __iter__(self):
-        for i, data in enumerate(self._iter_results()):
-            if i > self.n_results:
-                break
+        for data in islice(self._iter_results(), self.n_results):
             yield self._freesound_to_audio_metadata(data)
-- 
2.43.0


From e65a874444a2550afe05b18c56f56f0c6e1f20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:28 +0000
Subject: [PATCH 62/83] fix: drum loops are found in the text of the page

---
 zounds/datasets/phatdrumloops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/datasets/phatdrumloops.py b/zounds/datasets/phatdrumloops.py
index 80d3285..1e7bbf6 100644
--- a/zounds/datasets/phatdrumloops.py
+++ b/zounds/datasets/phatdrumloops.py
@@ -32,7 +32,7 @@ class PhatDrumLoops(object):
     def __iter__(self):
         resp = requests.get('http://phatdrumloops.com/beats.php')
         pattern = re.compile('href="(?P<uri>/audio/wav/[^\.]+\.wav)"')
-        for m in pattern.finditer(resp.content):
+        for m in pattern.finditer(resp.text):
             url = urllib.parse.urljoin('http://phatdrumloops.com',
                                    m.groupdict()['uri'])
             request = requests.Request(
-- 
2.43.0


From d952cd44b5815e16d115809ead43d2848a63b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:53 +0000
Subject: [PATCH 63/83] fix: the metadata of MusicNet is text

---
 zounds/datasets/musicnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/datasets/musicnet.py b/zounds/datasets/musicnet.py
index 8235208..0349da2 100644
--- a/zounds/datasets/musicnet.py
+++ b/zounds/datasets/musicnet.py
@@ -29,7 +29,7 @@ class MusicNet(object):
         local_metadata = ensure_local_file(self._metadata, self.path)
 
         metadata = dict()
-        with open(local_metadata, 'rb') as f:
+        with open(local_metadata, 'r') as f:
             reader = csv.DictReader(f)
             for row in reader:
                 metadata[row['id']] = row
-- 
2.43.0


From 1cb5e7fcadb5cf840d4dabb8114bb17ecbe277ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 64/83] fix: a range that ends at zero is empty

---
 zounds/ui/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 82f29fa..47b24cf 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -52,7 +52,7 @@ class DefaultSerializer(object):
         flo = feature(_id=document._id, decoder=Decoder(), persistence=document)
         if slce.start:
             flo.seek(slce.start)
-        if slce.stop:
+        if slce.stop is not None:
             value = flo.read(slce.stop - slce.start)
         else:
             value = flo.read()
-- 
2.43.0


From 581df0dcda812322ed76621773119fb7751e90ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:42 +0000
Subject: [PATCH 65/83] fix: the content range of a whole resource begins at
 zero

---
 zounds/ui/contentrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/ui/contentrange.py b/zounds/ui/contentrange.py
index 9d565f6..5fc3e21 100644
--- a/zounds/ui/contentrange.py
+++ b/zounds/ui/contentrange.py
@@ -90,7 +90,7 @@ class ContentRange(object):
 
     def __str__(self):
         unit = self.unit
-        start = self.start
+        start = 0 if self.start is None else self.start
         total = self.total
         # a range may be requested that goes past the end of the resource
         stop = total if self.stop is None else min(self.stop, total)
-- 
2.43.0


From 1efb86131ab442419e328f804a40e4fd30ca9778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 66/83] fix: slices of encoded audio begin at the right sample,
 however late

---
 zounds/soundfile/ogg_vorbis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zounds/soundfile/ogg_vorbis.py b/zounds/soundfile/ogg_vorbis.py
index fa7c83d..1c04937 100644
--- a/zounds/soundfile/ogg_vorbis.py
+++ b/zounds/soundfile/ogg_vorbis.py
@@ -4,14 +4,13 @@ from .audiostream import MemoryBuffer
 from zounds.timeseries import audio_sample_rate, TimeSlice, AudioSamples
 from soundfile import *
 from .byte_depth import chunk_size_samples
-from zounds.timeseries import Picoseconds, Seconds
+from zounds.timeseries import Seconds
 
 
 class OggVorbisWrapper(object):
     def __init__(self, flo):
         self._flo = flo
         self._sf = SoundFile(self._flo)
-        self._freq = Picoseconds(int(1e12)) / self._sf.samplerate
 
     @property
     def samplerate(self):
@@ -28,7 +27,8 @@ class OggVorbisWrapper(object):
     def _n_samples(self, duration):
         if duration is None:
             return -1
-        return int(duration / self._freq)
+        # a period in whole picoseconds would add up to errors of entire samples
+        return int(round(duration / Seconds(1) * self._sf.samplerate))
 
     def __getitem__(self, timeslice):
         sr = audio_sample_rate(self.samplerate)
@@ -37,7 +37,7 @@ class OggVorbisWrapper(object):
             self._sf.seek(0)
             return AudioSamples(self._sf.read(len(self._sf)), sr)
 
-        start_sample = int(timeslice.start / self._freq)
+        start_sample = self._n_samples(timeslice.start)
         n_samples = self._n_samples(timeslice.duration)
 
         self._sf.seek(start_sample)
-- 
2.43.0


From a1c3084775922cb06f689db60b391e2dffdf121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:50 +0000
Subject: [PATCH 67/83] fix: applying a scale without a window sums plainly

---
 zounds/spectral/frequencyscale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index 75f273c..c01e213 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -269,6 +269,8 @@ class FrequencyScale(object):
         return weights
 
     def apply(self, time_frequency_repr, window):
+        if window is None:
+            window = 1
         basis = self._basis(time_frequency_repr.dimensions[-1].scale, window)
         transformed = np.dot(basis, time_frequency_repr.T).T
         return transformed
-- 
2.43.0


From 89ce6316bb24c5466483d18362d728921a4b65d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:06 +0000
Subject: [PATCH 68/83] fix: phase_shift along an axis which is not the last

---
 zounds/spectral/functional.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index 167e1d8..f6c7762 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -235,7 +235,10 @@ def phase_shift(coeffs, samplerate, time_shift, axis=-1, frequency_band=None):
 
     slices = [slice(None) for _ in range(coeffs.ndim)]
     slices[axis] = frequency_band
-    new_coeffs[tuple(slices)] *= shift[frequency_band]
+    shape = [1 for _ in range(coeffs.ndim)]
+    shape[axis] = -1
+    new_coeffs[tuple(slices)] *= \
+        np.asarray(shift[frequency_band]).reshape(shape)
     return new_coeffs
 
 
-- 
2.43.0


From 631db25bd2b4bed34d38e16bd728ea35556d3feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:20 +0000
Subject: [PATCH 69/83] fix: links of training monitor apps lead to their
 features

---
 zounds/ui/training_monitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zounds/ui/training_monitor.py b/zounds/ui/training_monitor.py
index 4327c55..520428c 100644
--- a/zounds/ui/training_monitor.py
+++ b/zounds/ui/training_monitor.py
@@ -142,7 +142,7 @@ class SupervisedTrainingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
@@ -173,7 +173,7 @@ class GanTrainingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
@@ -204,7 +204,7 @@ class TripletEmbeddingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
-- 
2.43.0


From 72f470086d85dd4fd62402fd1aa217c1417f1019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:38 +0000
Subject: [PATCH 70/83] fix: search results are serialized with their query

---
 zounds/ui/serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 47b24cf..b56f025 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -287,7 +287,8 @@ class SearchResultsSerializer(AudioSliceSerializer):
         return isinstance(context.value, SearchResults)
 
     def additional_data(self, context):
-        return {'query': base64.b64encode(context.value.query)}
+        query = base64.b64encode(context.value.query)
+        return {'query': query.decode()}
 
     def iter_results(self, context):
         for _id, ts in context.value:
-- 
2.43.0


From c8c16d366b0921b3da8fc7f7f4bcde8bb6eae3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:56 +0000
Subject: [PATCH 71/83] fix: trainers stop after as many epochs as asked for

---
 zounds/learn/embedding.py | 2 +-
 zounds/learn/trainer.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/embedding.py b/zounds/learn/embedding.py
index e3f44ee..fe56c10 100644
--- a/zounds/learn/embedding.py
+++ b/zounds/learn/embedding.py
@@ -61,7 +61,7 @@ class TripletEmbeddingTrainer(Trainer):
         start = self._current_epoch
         stop = self._current_epoch + self.checkpoint_epochs
         for epoch in range(start, stop):
-            if epoch > self.epochs:
+            if epoch >= self.epochs:
                 break
 
             for batch in range(batches_in_epoch):
diff --git a/zounds/learn/trainer.py b/zounds/learn/trainer.py
index fea4b04..a49edef 100644
--- a/zounds/learn/trainer.py
+++ b/zounds/learn/trainer.py
@@ -61,7 +61,7 @@ class Trainer(object):
         stop = self._current_epoch + self.checkpoint_epochs
 
         for epoch in range(start, stop):
-            if epoch > self.epochs:
+            if epoch >= self.epochs:
                 break
 
             for batch in range(0, len(data), self.batch_size):
-- 
2.43.0


From 39fa3324381b96c8dad77e66a168e800708ba07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 72/83] fix: batch callbacks which are bound methods can be
 unregistered

---
 zounds/learn/trainer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/trainer.py b/zounds/learn/trainer.py
index a49edef..fdeca85 100644
--- a/zounds/learn/trainer.py
+++ b/zounds/learn/trainer.py
@@ -74,15 +74,16 @@ class Trainer(object):
         return self.network
 
     def register_batch_complete_callback(self, callback):
-        self._batch_complete_callbacks[id(callback)] = callback
+        self._batch_complete_callbacks[callback] = callback
 
     def unregister_batch_complete_callback(self, callback):
         try:
-            del self._batch_complete_callbacks[id(callback)]
+            del self._batch_complete_callbacks[callback]
         except KeyError:
             # the callback was never registered
             pass
 
     def on_batch_complete(self, *args, **kwargs):
-        for callback in self._batch_complete_callbacks.values():
+        # callbacks may come and go in the meantime
+        for callback in list(self._batch_complete_callbacks.values()):
             callback(*args, **kwargs)
-- 
2.43.0


From e843676aae59993e942995778fab81b903cf47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:34 +0000
Subject: [PATCH 73/83] fix: report errors of training as such, and those of
 test

---
 zounds/learn/supervised.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/supervised.py b/zounds/learn/supervised.py
index a5216ff..b77647b 100644
--- a/zounds/learn/supervised.py
+++ b/zounds/learn/supervised.py
@@ -115,8 +115,8 @@ class SupervisedTrainer(Trainer):
                 self.on_batch_complete(
                     epoch=epoch,
                     batch=i,
-                    train_error=te,
-                    test_error=e,
+                    train_error=e,
+                    test_error=te,
                     samples=self.samples)
 
             self._current_epoch += 1
-- 
2.43.0


From 811103feb13a7c71b7765e5c325497db10cf0fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 74/83] fix: exceptions have no message attribute

---
 zounds/learn/pytorch_model.py | 6 +++---
 zounds/learn/supervised.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/zounds/learn/pytorch_model.py b/zounds/learn/pytorch_model.py
index 23040b9..d5c23a4 100644
--- a/zounds/learn/pytorch_model.py
+++ b/zounds/learn/pytorch_model.py
@@ -154,7 +154,7 @@ class PyTorchNetwork(Preprocessor):
         except RuntimeError as e:
             processed_data = None
             # the dataset may be too large to fit onto the GPU all at once
-            warnings.warn(e.message)
+            warnings.warn(str(e))
 
         op = self.transform(
             network=trained_network, chunk_size=self.trainer.batch_size)
@@ -227,7 +227,7 @@ class PyTorchGan(PyTorchNetwork):
         except RuntimeError as e:
             processed_data = None
             # the dataset may be too large to fit onto the GPU all at once
-            warnings.warn(e.message)
+            warnings.warn(str(e))
 
         op = self.transform(network=network, apply_network=self.apply_network)
         inv_data = self.inversion_data()
@@ -292,7 +292,7 @@ class PyTorchAutoEncoder(PyTorchNetwork):
                 processed_data = forward_func(inp, network=trained_network)
             except RuntimeError as e:
                 processed_data = None
-                warnings.warn(e.message)
+                warnings.warn(str(e))
                 # we've just experienced an out of memory exception.  Cut the
                 # size of the input data in half, so that downstream nodes that
                 # need some data to initialize themselves can do so
diff --git a/zounds/learn/supervised.py b/zounds/learn/supervised.py
index b77647b..bbce468 100644
--- a/zounds/learn/supervised.py
+++ b/zounds/learn/supervised.py
@@ -95,8 +95,8 @@ class SupervisedTrainer(Trainer):
                     inp, output, e = batch(
                         minibatch_data, minibatch_labels, test=False)
                 except RuntimeError as e:
-                    if 'Assert' in e.message:
-                        warnings.warn(e.message)
+                    if 'Assert' in str(e):
+                        warnings.warn(str(e))
                         continue
                     else:
                         raise
-- 
2.43.0


From c98baec566bfeaf2bff1b67a80648b357e47ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:10 +0000
Subject: [PATCH 75/83] fix: versions of networks do not depend on memory
 addresses

---
 zounds/learn/preprocess.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 8e0376b..290f7b8 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -33,11 +33,21 @@ class Op(object):
             try:
                 h.update(v.version.encode())
             except AttributeError:
-                # the buffer of an array of objects holds their addresses
-                h.update(repr(v).encode() if isinstance(v, slice)
-                         else np.array(v))
+                self._update_hash(h, v)
         return h.hexdigest()
 
+    def _update_hash(self, h, v):
+        # the buffer of an array of objects holds their addresses, which are
+        # others whenever the objects are loaded
+        if isinstance(v, slice):
+            h.update(repr(v).encode())
+        elif hasattr(v, 'state_dict'):
+            for name, weights in sorted(v.state_dict().items()):
+                h.update(name.encode())
+                h.update(np.array(weights.cpu().numpy(), order='C'))
+        else:
+            h.update(np.array(v))
+
     def __getattr__(self, key):
         if key == '_kwargs':
             raise AttributeError()
-- 
2.43.0


From 7b23f6084914a5e105585bc8d65cf869e5b61af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:29 +0000
Subject: [PATCH 76/83] fix: documents without samples contribute nothing

---
 zounds/learn/random_samples.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index b47c95f..3ee6d5c 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -190,6 +190,9 @@ class InfiniteSampler(Node):
         # compute the contribution this sample makes to the dataset at
         # large
         feature_size = len(x)
+        if not feature_size:
+            # this document has nothing to contribute
+            return 0
         ratio = float(feature_size) / total_samples
 
         # determine the appropriate number of samples to contribute to
-- 
2.43.0


From aab573cd01b171431dec1feac8d3f53243588525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:47 +0000
Subject: [PATCH 77/83] fix: the root of a streaming learning pipeline needs
 the dataset by name

---
 zounds/learn/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/learn/graph.py b/zounds/learn/graph.py
index b554cde..a298d63 100644
--- a/zounds/learn/graph.py
+++ b/zounds/learn/graph.py
@@ -52,7 +52,7 @@ def infinite_streaming_learning_pipeline(cls):
 
             raise RuntimeError('There is no network in the pipeline')
 
-    root.needs = InfiniteLearningPipeline.dataset
+    root.needs = dict(dataset=InfiniteLearningPipeline.dataset)
     InfiniteLearningPipeline.__name__ = cls.__name__
     InfiniteLearningPipeline.__module__ = cls.__module__
 
-- 
2.43.0


From f3924845ed5530918bcceb5e5c310fcc736784b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:04 +0000
Subject: [PATCH 78/83] fix: the cosine transform of tensors is the one of
 arrays

---
 zounds/learn/dct_transform.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/dct_transform.py b/zounds/learn/dct_transform.py
index 044108c..2c15742 100644
--- a/zounds/learn/dct_transform.py
+++ b/zounds/learn/dct_transform.py
@@ -1,3 +1,4 @@
+import numpy as np
 from zounds.spectral import dct_basis
 import torch
 from torch.autograd import Variable
@@ -28,7 +29,10 @@ class DctTransform(object):
         try:
             return self._basis_cache[n]
         except KeyError:
-            basis = torch.from_numpy(dct_basis(n)).float()
+            basis = dct_basis(n)
+            # scale the constant function, so that the basis is orthonormal
+            basis[0] *= np.sqrt(0.5)
+            basis = torch.from_numpy(basis).float()
             if self.use_cuda:
                 basis = basis.cuda()
             self._basis_cache[n] = basis
@@ -53,11 +57,11 @@ class DctTransform(object):
 
     def dct(self, x, axis=-1):
         basis = self._variable(self.dct_basis(x.shape[axis]))
-        return self._base_dct_transform(x, basis, axis)
+        return self._base_dct_transform(x, basis.t(), axis)
 
     def idct(self, x, axis=-1):
         basis = self._variable(self.dct_basis(x.shape[axis]))
-        return self._base_dct_transform(x, basis.t(), axis)
+        return self._base_dct_transform(x, basis, axis)
 
     def dct_resample(self, x, factor, axis=-1, zero_slice=None):
         # figure out how many samples our resampled signal will have
-- 
2.43.0


From 26a9d849bf5918426418930d1f8042a52b9775dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:23 +0000
Subject: [PATCH 79/83] fix: short time transforms of tensors are not scrambled

---
 zounds/learn/dct_transform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/dct_transform.py b/zounds/learn/dct_transform.py
index 2c15742..d223615 100644
--- a/zounds/learn/dct_transform.py
+++ b/zounds/learn/dct_transform.py
@@ -40,12 +40,12 @@ class DctTransform(object):
 
     def window(self, n, window):
         try:
-            return self._window_cache[n]
+            return self._window_cache[(n, window)]
         except KeyError:
             data = torch.from_numpy(window._wdata(n)).float()
             if self.use_cuda:
                 data = data.cuda()
-            self._window_cache[n] = data
+            self._window_cache[(n, window)] = data
             return data
 
     def _base_dct_transform(self, x, basis, axis=-1):
@@ -126,5 +126,7 @@ class DctTransform(object):
         window = self._variable(self.window(x.shape[-1], window))
         x = x * window
         x = self.dct(x, axis=-1)
-        x = x.view((original_shape[0], size, x.shape[2]))
+        # windows come before coefficients until here
+        x = x.transpose(-1, -2).contiguous()
+        x = x.view((original_shape[0], size, x.shape[-1]))
         return x
-- 
2.43.0


From 767ee8fba3c2d36053d3a98c503299c0a4adb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:40 +0000
Subject: [PATCH 80/83] fix: sizes of feature maps are integers

---
 zounds/learn/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/learn/util.py b/zounds/learn/util.py
index c653614..f8e9d83 100644
--- a/zounds/learn/util.py
+++ b/zounds/learn/util.py
@@ -145,7 +145,7 @@ def batchwise_mean_std_normalization(x, epsilon=1e-8):
 
 
 def feature_map_size(inp, kernel, stride=1, padding=0):
-    return ((inp - kernel + (2 * padding)) / stride) + 1
+    return ((inp - kernel + (2 * padding)) // stride) + 1
 
 
 class ConvLayer(nn.Module):
-- 
2.43.0


From f21deb5cd4a735c14a20cccfc6bd4e04e4d6900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:58 +0000
Subject: [PATCH 81/83] fix: hashes and gradients of networks with Python 3 and
 recent torch

---
 zounds/learn/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/util.py b/zounds/learn/util.py
index f8e9d83..997bb61 100644
--- a/zounds/learn/util.py
+++ b/zounds/learn/util.py
@@ -54,7 +54,7 @@ def trainable_parameters(model):
 
 def model_hash(model):
     h = hashlib.md5()
-    h.update(str(model))
+    h.update(str(model).encode())
     for p in model.parameters():
         h.update(p.data.cpu().numpy())
     return h.hexdigest()
@@ -65,7 +65,7 @@ def gradients(network):
         g = p.grad
         if g is None:
             continue
-        yield n, g.min().data[0], g.max().data[0], g.mean().data[0]
+        yield n, g.min().item(), g.max().item(), g.mean().item()
 
 
 def to_var(x, volatile=False):
-- 
2.43.0


From 8956591deb6682c9a3cedc24f735339a7c5a5444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:36 +0000
Subject: [PATCH 82/83] fix: overlap-added frames end with the last frame

---
 zounds/synthesize/synthesize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/synthesize/synthesize.py b/zounds/synthesize/synthesize.py
index f52c085..72d83bf 100644
--- a/zounds/synthesize/synthesize.py
+++ b/zounds/synthesize/synthesize.py
@@ -30,7 +30,8 @@ class ShortTimeTransformSynthesizer(object):
         hopsize = int(np.round(time_dim.frequency / sample_freq))
 
         # create an empty array of audio samples
-        arr = np.zeros(int(time_dim.end / sample_freq))
+        # that ends with the last frame
+        arr = np.zeros(max(0, hopsize * (len(frames) - 1) + windowsize))
         windowed_frames = self._windowing_function() * frames
 
         for i, f in enumerate(windowed_frames):
-- 
2.43.0


From 500ffa9f1e3665fd7e311bacec0d5e9ee0cef9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:05 +0000
Subject: [PATCH 83/83] fix: resample frames whatever their layout in memory,
 down to a single frame

---
 zounds/soundfile/resample.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/zounds/soundfile/resample.py b/zounds/soundfile/resample.py
index 26a7907..f658ad8 100644
--- a/zounds/soundfile/resample.py
+++ b/zounds/soundfile/resample.py
@@ -79,14 +79,15 @@ class Resample(object):
             self.c_int_converter_type, self.c_int_channels, self.error)
 
     def _prepare_input(self, insamples):
-        # ensure that the input is float data
-        if np.float32 != insamples.dtype:
-            return insamples.astype(np.float32)
-        return insamples
+        # ensure that the input is float data, with the channels of each frame
+        # next to each other in memory, which is what libsamplerate expects
+        return np.ascontiguousarray(insamples, dtype=np.float32)
 
     def _output_buffer(self, insamples):
-        outsize = (int(np.round(len(insamples) * self._ratio)), self.nchannels)
-        return np.zeros(outsize, dtype=np.float32).squeeze()
+        outsize = (int(np.round(len(insamples) * self._ratio)),)
+        if self.nchannels > 1:
+            outsize += (self.nchannels,)
+        return np.zeros(outsize, dtype=np.float32)
 
     def _check_for_error(self, return_code):
         if return_code:
-- 
2.43.0

