From 5a0b717c6f40315231513b2993a507b550733c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 01/26] fix: noise variance after downsampling by a (nearly)
 integer factor

The variance of white noise summed over k samples grows as k, not as
(k-1)^2 + 1; S/N was underestimated for factors of 3 and above.
---
 riptide/cpp/downsample.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/downsample.hpp b/riptide/cpp/downsample.hpp
index f0d780d..541aa53 100644
--- a/riptide/cpp/downsample.hpp
+++ b/riptide/cpp/downsample.hpp
@@ -34,7 +34,7 @@ double downsampled_variance(size_t num_samples, double f)
     if (x > 1)
         return f - 1.0 / 3.0;
     else
-        return pow(k-1, 2) + 2.0/3.0 * pow(x, 2) - x + 1.0;
+        return (k - 1.0) + 2.0/3.0 * pow(x, 2) - x + 1.0;
     }
 
 
-- 
2.43.0


From 0c57c1b28bb34a4aaeeb9bc325921c28bb21f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 02/26] fix: keep float32 data when normalising a TimeSeries in
 place

With NumPy 2 promotion rules (float32 array - float64 scalar) is float64.
---
 riptide/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ebeb294..ed91d6f 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -85,7 +85,7 @@ class TimeSeries(object):
         norm = v ** 0.5
         
         if inplace:
-            self._data = (self.data - m) / norm
+            self._data = np.asarray((self.data - m) / norm, dtype=np.float32)
         else:
             return TimeSeries((self.data - m) / norm, self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From 6c2729ff51dffe126d340c1dd61e9676309c7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 03/26] fix: update recorded tobs when downsampling a
 TimeSeries in place

---
 riptide/time_series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptide/time_series.py b/riptide/time_series.py
index ed91d6f..a7edef7 100644
--- a/riptide/time_series.py
+++ b/riptide/time_series.py
@@ -141,6 +141,7 @@ class TimeSeries(object):
         if inplace:
             self._data = downsample(self.data, factor)
             self._tsamp *= factor
+            self.metadata['tobs'] = self.length
         else:
             return TimeSeries(downsample(self.data, factor), factor * self.tsamp, metadata=self.metadata)
 
-- 
2.43.0


From d113eb84512f9a8e0c4964483aa13f808330a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 04/26] fix: arrays loaded from JSON must be writable

TimeSeries.deredden(inplace=True) failed on any TimeSeries loaded from JSON.
---
 riptide/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 122d778..461d352 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -88,7 +88,8 @@ def object_hook(items):
     if typename == 'numpy.ndarray':
         b64_bytes = items['data'].encode()
         data = base64.b64decode(b64_bytes)
-        return np.frombuffer(data, items['dtype']).reshape(items['shape'])
+        # NOTE: copy() because arrays created by frombuffer() are read-only
+        return np.frombuffer(data, items['dtype']).reshape(items['shape']).copy()
 
     # NOTE: decoding is done from the deepest nodes of the tree first
     # Which means items['values'] is already a numpy array here
-- 
2.43.0


From f13139ed072853e8166c92e283f16498beafa7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 05/26] fix: dereddening with a window of an even number of
 samples

fast_running_median() raised 'width must be an odd number' whenever no
scrunching was needed and the window width was even, e.g. the default 4.0 s
window at 0.1 s sampling time.
---
 riptide/running_medians.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptide/running_medians.py b/riptide/running_medians.py
index 97af9f6..5639fe9 100644
--- a/riptide/running_medians.py
+++ b/riptide/running_medians.py
@@ -75,6 +75,9 @@ def fast_running_median(data, width_samples, min_points=101):
     scrunch_factor = int(max(1, width_samples / float(min_points)))
 
     if (scrunch_factor == 1):
+        # NOTE: the exact running median requires an odd window width
+        if width_samples > 0 and width_samples % 2 == 0:
+            width_samples += 1
         return running_median(data, width_samples)
 
     scrunched_data = scrunch(data, scrunch_factor)
-- 
2.43.0


From 5858254ff2a6006acb2a7d3e095ca4ea8257ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 06/26] fix: fold() loses a sub-integration or fails due to
 rounding errors

The downsampling factors along phase and along sub-integrations could exceed
the exact ratio by one rounding error, which lost the last output sample: fewer
sub-integrations than requested (e.g. 6 instead of 7 out of 9 periods), and a
lost period or an exception if the period divides the data length exactly.
---
 riptide/folding.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/riptide/folding.py b/riptide/folding.py
index 78c8f08..6849da0 100644
--- a/riptide/folding.py
+++ b/riptide/folding.py
@@ -3,6 +3,19 @@ import numpy as np
 from riptide.libffa import downsample
 
 
+def snap_factor(size, factor):
+    """
+    Returns 'factor', unless it exceeds the factor that reduces 'size' samples
+    to a whole number of samples by no more than rounding errors, in which case
+    the largest factor that actually does so is returned. Otherwise, the last
+    output sample would be lost.
+    """
+    n = round(size / factor)
+    if size / factor < n <= size / factor * (1.0 + 1.0e-12):
+        return np.nextafter(size / n, 0.0)
+    return factor
+
+
 def downsample_vertical(X, factor):
     m, __ = X.shape
 
@@ -12,6 +25,7 @@ def downsample_vertical(X, factor):
         raise ValueError("factor must be strictly smaller than the number of input lines")
 
     Y = np.ascontiguousarray(X.T)
+    factor = snap_factor(m, factor)
     out = np.asarray([downsample(arr, factor) for arr in Y])
     return np.ascontiguousarray(out.T)
 
@@ -57,13 +71,14 @@ def fold(ts, period, bins, subints=None):
         if not subints >= 1:
             raise ValueError("subints must be >= 1 or None")
 
-        full_periods = ts.length / period
-        if subints > full_periods:
-            raise ValueError(f"subints ({subints}) exceeds the number of signal periods that fit in the data ({full_periods})")
-
-    factor = tbin / ts.tsamp
+    # NOTE: if 'period' divides the data length, all periods must be counted
+    factor = snap_factor(ts.nsamp, tbin / ts.tsamp)
     tsdown = ts.downsample(factor)
     m = tsdown.nsamp // bins
+
+    if subints is not None and subints > m:
+        raise ValueError(f"subints ({subints}) exceeds the number of signal periods that fit in the data ({m})")
+
     nsamp_eff = m * bins
     
     folded = tsdown.data[:nsamp_eff].reshape(m, bins)
-- 
2.43.0


From f2c80477e15bbb646defd28c9165b5b159552828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 07/26] fix: rseek crashed when --rmed_minpts was specified

The value was parsed as a float but is used as a window size in samples.
---
 riptide/apps/rseek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/apps/rseek.py b/riptide/apps/rseek.py
index 91ce8b8..1c17d72 100644
--- a/riptide/apps/rseek.py
+++ b/riptide/apps/rseek.py
@@ -54,7 +54,7 @@ def get_parser():
         help="Width (in seconds) of the running median filter to subtract from the input data before processing"
     )
     parser.add_argument(
-        "--rmed_minpts", type=float, default=101, 
+        "--rmed_minpts", type=int, default=101, 
         help=(
         "The running median is calculated of a time scrunched version of the"
         " input data to save time: rmed_minpts is the minimum number of"
-- 
2.43.0


From 9e0fdc99aef9cc674732a64ca42fa770134207fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 08/26] fix: circular_prefix_sum wrote beyond its output array

The output must hold nsum elements, not as many as the input.
---
 riptide/cpp/python_bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index dfd45da..b8d161f 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,7 +75,7 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
-    auto arr_output = new_cstyle_array<float>({size});
+    auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
 }
-- 
2.43.0


From c3879dfb7e5392a18f88e6be431bf7a766bd4770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 09/26] fix: stack overflow when computing the S/N of very long
 profiles

---
 riptide/cpp/snr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index 7f8ab73..a1cba26 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <memory>
 
 #include "block.hpp"
 #include "kernels.hpp"
@@ -37,7 +38,9 @@ output must have capacity for num_widths elements.
 void snr1(const float* __restrict__ arr, size_t size, const size_t* widths, size_t num_widths, float stdnoise, float* __restrict__ out)
     {
     const size_t wmax = *std::max_element(widths, widths + num_widths);
-    float cpfsum[size + wmax];
+    // NOTE: must be allocated on the heap, a long profile would overflow the stack
+    std::unique_ptr<float[]> cpfsum_mem(new float[size + wmax]);
+    float* cpfsum = cpfsum_mem.get();
     circular_prefix_sum(arr, size, size + wmax, cpfsum);
     const float sum = cpfsum[size - 1]; // sum of input array
 
-- 
2.43.0


From d4d657a3e1534b0651339d73986bf118c015d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 10/26] fix: search failed if period_max greatly exceeds the
 data length

The search must stop at the largest period that fits in the data, but instead
raised 'Downsampling factor must verify: 1 < f <= size' as soon as period_max
exceeded the data length by a factor of a few hundred.
---
 riptide/cpp/periodogram.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riptide/cpp/periodogram.hpp b/riptide/cpp/periodogram.hpp
index bcea0ea..e2a7b2d 100644
--- a/riptide/cpp/periodogram.hpp
+++ b/riptide/cpp/periodogram.hpp
@@ -89,6 +89,10 @@ size_t periodogram_length(
         const double period_max_samples = period_max / tau;
         const size_t n = downsampled_size(size, f); // current number of input samples
 
+        // Stop when the data are too short to form even one complete period
+        if (n < bins_min)
+            break;
+
         // Min and max number of bins with which to FFA transform in order to
         // cover all trial periods between period_min and period_max.
         // NOTE: bstop is INclusive
@@ -157,6 +161,10 @@ void periodogram(
         const double period_max_samples = period_max / tau;
         const size_t n = downsampled_size(size, f); // current number of input samples
 
+        // Stop when the data are too short to form even one complete period
+        if (n < bins_min)
+            break;
+
         // downsample() requires f > 1, but we still allow searching the data at their
         // original resolution.
         if (f == 1) {
-- 
2.43.0


From 0bc78a38302e017095d5d2db5898aa2ee28c2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 11/26] fix: refuse searches with trial widths not smaller than
 bins_min

They yielded meaningless or NaN S/N values (e.g. with ducy_max >= 1).
---
 riptide/cpp/python_bindings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index b8d161f..ced1805 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -194,6 +194,7 @@ std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > per
     size_t num_widths = widths.size();
 
     size_t length = riptide::periodogram_length(size, tsamp, period_min, period_max, bins_min, bins_max);
+    riptide::check_trial_widths(widths.data(0), num_widths, bins_min);
 
     auto periods = new_cstyle_array<double>({length});
     auto foldbins = new_cstyle_array<uint32_t>({length});
-- 
2.43.0


From 55d6e465ef4068713bf50efb26b07fd60a50a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 12/26] fix: handle searches that yield no or very few trial
 periods

ffa_search() and find_peaks() raised IndexError or ZeroDivisionError, which made
the whole pipeline fail if one search range could not be covered by the data.
---
 riptide/cpp/python_bindings.cpp | 2 +-
 riptide/peak_detection.py       | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index ced1805..abca4b7 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -203,7 +203,7 @@ std::tuple< py::array_t<double>, py::array_t<uint32_t>, py::array_t<float> > per
     riptide::periodogram(
         data.data(0), size, tsamp, widths.data(0), num_widths, 
         period_min, period_max, bins_min, bins_max, 
-        periods.mutable_data(0), foldbins.mutable_data(0), snrs.mutable_data(0)
+        periods.mutable_data(), foldbins.mutable_data(), snrs.mutable_data()
         );
 
     return std::make_tuple(periods, foldbins, snrs);
diff --git a/riptide/peak_detection.py b/riptide/peak_detection.py
index 1949504..09cfa89 100644
--- a/riptide/peak_detection.py
+++ b/riptide/peak_detection.py
@@ -67,8 +67,12 @@ def segment_stats(f, s, T, segwidth=5.0):
     w = segwidth / T
     #log.debug("Segment width (Hz): {:.6f}".format(w))
 
+    if not len(f):
+        return np.zeros(0), np.zeros(0), np.zeros(0)
+
     # NOTE: the spacing of frequency trials is almost constant
     m = ceil(abs(f[-1] - f[0]) / w) # number of segments
+    m = max(1, min(m, len(f))) # at least one segment, at least one point in each
     #log.debug("Segments: {:d}".format(m))
 
     p = len(f) // m # number of complete segments
-- 
2.43.0


From 827e6010cdfefbb07f4b142dc35d2c16c34038c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 13/26] fix: accept a blank number of candidate
 sub-integrations in the configuration

It is documented as allowed and handled when building candidates, but was
refused by the configuration schema.
---
 riptide/pipeline/config_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 3d0a298..6f79692 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -48,7 +48,9 @@ SEARCH_RANGE_SCHEMA = Schema({
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-        'subints': And(int, strictly_positive, error="candidates.subints must be an int > 0"),
+        'subints': Or(
+            And(int, strictly_positive), None,
+            error="candidates.subints must be an int > 0 or null/blank"),
         },
 })
 
-- 
2.43.0


From 66a3cbda5a66b4f9285b42587139b90d826ee218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 14/26] fix: results of a previous run leaked into the next
 when reusing a Pipeline

Candidates accumulated across process() calls, and clusters of the previous run
were output again if the next data set contained no peaks.
---
 riptide/pipeline/pipeline.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptide/pipeline/pipeline.py b/riptide/pipeline/pipeline.py
index c0a1ee1..d26e90a 100644
--- a/riptide/pipeline/pipeline.py
+++ b/riptide/pipeline/pipeline.py
@@ -381,6 +381,12 @@ class Pipeline(object):
 
     @timing
     def process(self, files, outdir):
+        # Discard the results of any previous call
+        self.peaks = []
+        self.clusters = []
+        self.clusters_filtered = []
+        self.candidates = []
+
         self.prepare(files)
         self.search()
         self.cluster_peaks()
-- 
2.43.0


From 4f49c022a29b58bb3b69a0eff67d33096d07dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 15/26] fix: plotting candidates with a single sub-integration

A candidate folded with subints = 1, or whose period fits only once in the data,
has one-dimensional subints; plotting it failed and made the pipeline crash.
---
 riptide/candidate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index 56fbe0e..d4081c3 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -223,6 +223,8 @@ def plot_subints(X, T):
     T : float
         Integration time in seconds
     """
+    # NOTE: with a single sub-integration, X is one-dimensional
+    X = np.atleast_2d(X)
     __, nbins = X.shape
 
     X = np.hstack((X, X[:, :nbins//2]))
-- 
2.43.0


From e0dacfe13692e2b846643de0afe12edd771b3f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 16/26] fix: boxcar_snr refused Fortran-ordered and transposed
 profile arrays

---
 riptide/libffa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/libffa.py b/riptide/libffa.py
index f2d8884..7de7bb4 100644
--- a/riptide/libffa.py
+++ b/riptide/libffa.py
@@ -218,7 +218,7 @@ def boxcar_snr(data, widths, stdnoise=1.0):
     b = data.shape[-1]
 
     # Input to C++ function must be 2D
-    cppinput = data.reshape(-1, b).astype(np.float32)
+    cppinput = np.ascontiguousarray(data.reshape(-1, b), dtype=np.float32)
     m = cppinput.shape[0]
     snr = libcpp.snr2(cppinput, widths, stdnoise)
     shape = list(data.shape[:-1]) + [widths.size]
-- 
2.43.0


From 293457f5e188cfefb12975075a26dbbc8346a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 17/26] fix: repeated trial periods when (rows - 1) is a
 multiple of (bins + 1)

---
 riptide/cpp/periodogram.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/cpp/periodogram.hpp b/riptide/cpp/periodogram.hpp
index e2a7b2d..92f3df9 100644
--- a/riptide/cpp/periodogram.hpp
+++ b/riptide/cpp/periodogram.hpp
@@ -53,7 +53,9 @@ of rows to evaluate is equal to ceilshift.
 */
 size_t ceilshift(size_t rows, size_t cols, double pmax)
     {
-    return ceil(cols * (rows - 1.0) * (1.0 - cols / pmax));
+    // NOTE: written so that the result is exact when pmax is an integer (cols + 1 in general), otherwise
+    // the first trial period equal to pmax could be included because of rounding errors
+    return ceil(cols * (rows - 1.0) * (pmax - cols) / pmax);
     }
 
 
-- 
2.43.0


From 00a9a303408a15542d5ab26a84a23c50c0e07f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 18/26] fix: noise variance when the downsampling factor is
 just below an integer

---
 riptide/cpp/downsample.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptide/cpp/downsample.hpp b/riptide/cpp/downsample.hpp
index 541aa53..f6817bc 100644
--- a/riptide/cpp/downsample.hpp
+++ b/riptide/cpp/downsample.hpp
@@ -28,13 +28,13 @@ Variance of background Gaussian noise after downsampling a time series with 'num
 */
 double downsampled_variance(size_t num_samples, double f)
     {
-    const double k = floor(f);
-    const double r = f - k;
+    // NOTE: f can be on either side of the nearest integer, in particular just below due to rounding errors
+    const double r = fabs(f - round(f));
     const double x = downsampled_size(num_samples, f) * r;
     if (x > 1)
         return f - 1.0 / 3.0;
     else
-        return (k - 1.0) + 2.0/3.0 * pow(x, 2) - x + 1.0;
+        return f + 2.0/3.0 * pow(x, 2) - x;
     }
 
 
-- 
2.43.0


From 98daa8ab0c283428f1f2324aa0c04bf2fa9401cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 19/26] fix: circular_prefix_sum of an empty array killed the
 interpreter

---
 riptide/cpp/python_bindings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptide/cpp/python_bindings.cpp b/riptide/cpp/python_bindings.cpp
index abca4b7..58e038e 100644
--- a/riptide/cpp/python_bindings.cpp
+++ b/riptide/cpp/python_bindings.cpp
@@ -75,6 +75,10 @@ py::array_t<float> circular_prefix_sum(py::array_t<float> arr_x, size_t nsum)
     assert_c_contiguous(arr_x);
     auto x = arr_x.unchecked<1>();
     const size_t size = x.size();
+    if (size == 0)
+    {
+        throw std::invalid_argument("Input array must not be empty");
+    }
     auto arr_output = new_cstyle_array<float>({nsum});
     riptide::circular_prefix_sum(x.data(0), size, nsum, arr_output.mutable_data(0));
     return arr_output;
-- 
2.43.0


From 36a6777a1ecc4fa7e475d77df692d97c06ceba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 20/26] fix: out of bounds read when no trial widths are given

---
 riptide/cpp/snr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptide/cpp/snr.hpp b/riptide/cpp/snr.hpp
index a1cba26..3a0d860 100644
--- a/riptide/cpp/snr.hpp
+++ b/riptide/cpp/snr.hpp
@@ -37,6 +37,9 @@ output must have capacity for num_widths elements.
 */
 void snr1(const float* __restrict__ arr, size_t size, const size_t* widths, size_t num_widths, float stdnoise, float* __restrict__ out)
     {
+    if (num_widths == 0)
+        return;
+
     const size_t wmax = *std::max_element(widths, widths + num_widths);
     // NOTE: must be allocated on the heap, a long profile would overflow the stack
     std::unique_ptr<float[]> cpfsum_mem(new float[size + wmax]);
-- 
2.43.0


From 39c750fccaeead4b685df56d46225d669cc1a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:27 +0000
Subject: [PATCH 21/26] fix: integer columns of tables loaded from JSON became
 floating point

---
 riptide/serialization.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/riptide/serialization.py b/riptide/serialization.py
index 461d352..4c31a86 100644
--- a/riptide/serialization.py
+++ b/riptide/serialization.py
@@ -52,7 +52,9 @@ class JSONEncoder(json.JSONEncoder):
             return {
                 '__type__': 'pandas.DataFrame',
                 'values': self.default(obj.values),
-                'columns': list(obj.columns)
+                'columns': list(obj.columns),
+                # NOTE: 'values' is converted to the common type of all columns
+                'dtypes': [str(dtype) for dtype in obj.dtypes]
             }
 
         if isinstance(obj, SkyCoord):
@@ -94,7 +96,11 @@ def object_hook(items):
     # NOTE: decoding is done from the deepest nodes of the tree first
     # Which means items['values'] is already a numpy array here
     if typename == 'pandas.DataFrame':
-        return pandas.DataFrame(items['values'], columns=items['columns'])
+        df = pandas.DataFrame(items['values'], columns=items['columns'])
+        # NOTE: files written by older versions do not store the data types
+        if 'dtypes' in items:
+            df = df.astype(dict(zip(items['columns'], items['dtypes'])))
+        return df
 
     if typename == 'astropy.SkyCoord':
         ra = items['rajd']
-- 
2.43.0


From 8c32f4854d7ee5fbf1ea8f08aeecc9eff0df1fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:36 +0000
Subject: [PATCH 22/26] fix: accept an empty find_peaks section in the pipeline
 configuration

---
 riptide/pipeline/config_validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 6f79692..84f0104 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -31,7 +31,8 @@ SEARCH_RANGE_SCHEMA = Schema({
             float, lambda x: 0 < x < 1, error='ducy_max must be strictly between 0 and 1'),
         },
 
-    'find_peaks': {
+    # NOTE: this section can be left empty in the YAML file, in which case it is read as None
+    'find_peaks': And(Use(lambda x: {} if x is None else x), {
         Optional('smin'): And(
             Use(float), strictly_positive, error="smin must be a number > 0"),
         Optional('segwidth'): And(
@@ -44,7 +45,7 @@ SEARCH_RANGE_SCHEMA = Schema({
             Use(float), strictly_positive, error="polydeg must be a number > 0"),
         Optional('clrad'): Or(
             And(Use(float), strictly_positive), None, error="clrad must be a number > 0"),
-        },
+        }),
 
     'candidates': {
         'bins': And(int, strictly_positive, error="candidates.bins must be an int > 0"),
-- 
2.43.0


From 77016c544d862d7bc7c9d3854f7f15285982fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 23/26] fix: refuse a pipeline configuration without search
 ranges

---
 riptide/pipeline/config_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptide/pipeline/config_validation.py b/riptide/pipeline/config_validation.py
index 84f0104..31706f6 100644
--- a/riptide/pipeline/config_validation.py
+++ b/riptide/pipeline/config_validation.py
@@ -87,7 +87,9 @@ PIPELINE_CONFIG_SCHEMA = Schema({
         'rmed_minpts': Schema(strictly_positive, error="rmed_minpts must be a number > 0")
         },
 
-    'ranges': [SEARCH_RANGE_SCHEMA],
+    'ranges': And(
+        [SEARCH_RANGE_SCHEMA],
+        Schema(len, error="there must be at least one search range")),
 
     'clustering': {
         'radius': Schema(strictly_positive, error="clustering radius must be a number > 0"),
-- 
2.43.0


From 983260e5e126c7c1b6d1e0e0583136f11ef4de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 24/26] fix: refuse metadata keys that are not strings

---
 riptide/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptide/metadata.py b/riptide/metadata.py
index 80353eb..f17ab99 100644
--- a/riptide/metadata.py
+++ b/riptide/metadata.py
@@ -20,7 +20,7 @@ SCHEMA_ITEMS = {
     Optional(str): json.dumps
     }
 
-SCHEMA = Schema(SCHEMA_ITEMS, ignore_extra_keys=True)
+SCHEMA = Schema(SCHEMA_ITEMS)
 
 
 class Metadata(dict):
-- 
2.43.0


From b8becc3aae5c1018ee4207381297c715e2990140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 25/26] fix: plot candidates whose metadata are incomplete or
 contain dollar signs

---
 riptide/candidate.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/riptide/candidate.py b/riptide/candidate.py
index d4081c3..718ff7b 100644
--- a/riptide/candidate.py
+++ b/riptide/candidate.py
@@ -158,9 +158,12 @@ class TableEntry(TableEntryBase):
             Y coordinate of the line
         """
         assert(len(X) == 3)
+        # NOTE: metadata can be missing. Also, dollar signs in the source name
+        # must not be taken for mathematical text by matplotlib
         fmt = "{{:{}}}".format(self.formatter)
+        text = fmt.format(self.value).replace('$', r'\$') if self.value is not None else ''
         plt.text(X[0], y, self.name, **kwargs)
-        plt.text(X[1], y, fmt.format(self.value), ha='right', **kwargs)
+        plt.text(X[1], y, text, ha='right', **kwargs)
         plt.text(X[2], y, self.unit, **kwargs)
 
 
@@ -169,13 +172,18 @@ def plot_table(params, tsmeta):
     """
     plt.axis('off')
     coord = tsmeta['skycoord']
-    ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
-    dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
+    ra_hms, dec_hms = None, None
+    if coord is not None:
+        ra_hms = coord.ra.to_string(unit=uu.hour, sep=':', precision=2, pad=True)
+        dec_hms = coord.dec.to_string(unit=uu.deg, sep=':', precision=2, pad=True)
 
     # TODO: Check that the scale is actually UTC in the general case
     # PRESTO, SIGPROC and other packages may not have the same
     # date/time standard
-    obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)
+    mjd, utc = None, None
+    if tsmeta['mjd'] is not None:
+        obsdate = Time(tsmeta['mjd'], format='mjd', scale='utc', precision=0)
+        mjd, utc = obsdate.mjd, obsdate.iso
 
     blank = TableEntry(name='', value='', formatter='s', unit='')
 
@@ -189,8 +197,8 @@ def plot_table(params, tsmeta):
         TableEntry(name='Source', value=tsmeta['source_name'], formatter='s', unit=''),
         TableEntry(name='RA', value=ra_hms, formatter='s', unit=''),
         TableEntry(name='Dec', value=dec_hms, formatter='s', unit=''),
-        TableEntry(name='MJD', value=obsdate.mjd, formatter='.6f', unit=''),
-        TableEntry(name='UTC', value=obsdate.iso, formatter='s', unit=''),
+        TableEntry(name='MJD', value=mjd, formatter='.6f', unit=''),
+        TableEntry(name='UTC', value=utc, formatter='s', unit=''),
     ]
 
     y0 = 0.94  # Y coordinate of first line
-- 
2.43.0


From 6a537fd298a94b3b9b1a5ee1af32c1055c214c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 26/26] fix: compute FFA drift shares in double precision

---
 riptide/cpp/transforms.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riptide/cpp/transforms.hpp b/riptide/cpp/transforms.hpp
index e093242..a5a4a7b 100644
--- a/riptide/cpp/transforms.hpp
+++ b/riptide/cpp/transforms.hpp
@@ -14,13 +14,14 @@ void merge(ConstBlock thead, ConstBlock ttail, Block out)
     {
     const size_t m = out.rows;
     const size_t p = out.cols;
-    const float kh = (thead.rows - 1.0f) / (m - 1.0f);
-    const float kt = (ttail.rows - 1.0f) / (m - 1.0f);
+    // NOTE: single precision is not enough with more than ~10000 rows
+    const double kh = (thead.rows - 1.0) / (m - 1.0);
+    const double kt = (ttail.rows - 1.0) / (m - 1.0);
 
     for (size_t s = 0; s < m; ++s)
         {
-        const size_t h = kh * s + 0.5f;
-        const size_t t = kt * s + 0.5f;
+        const size_t h = kh * s + 0.5;
+        const size_t t = kt * s + 0.5;
         const size_t b = s - (h + t);
         fused_rollback_add(thead.rowptr(h), ttail.rowptr(t), p, h+b, out.rowptr(s));
         }
-- 
2.43.0

