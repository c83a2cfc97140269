From 4e2311721eb4509cbd4b6debc0c7d8d193754cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 01/16] fix: ecdf1_new_b/ecdf1_new_B aborted on samples of size
 0 and 1

The jump size sqrt(n)+1 was larger than n, which failed the assertion in
poisson_B_noncrossing_probability_n2 (and, without assertions, read B[-1] for n=0).
---
 src/ecdf1_new.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index b87b17f..4ed55fe 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -117,10 +117,15 @@ double ecdf1_new_B(const vector<double>& B)
     int n = B.size();
     check_boundary_vector("B", n, B);
 
+    if (n == 0) {
+        return 1.0; // An empty sample cannot cross.
+    }
+
     // Asymptotically any k in the range [logn, n/logn] should give optimal results as n goes to infinity.
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
     // however, empirically slightly lower numbers give better results.
-    int k = sqrt(n) + 1; // The +1 is to prevent it from being zero for small array sizes.
+    // The jump size cannot exceed n, as the unclamped value does for n=1.
+    int k = min(int(sqrt(n)) + 1, n);
 
 
     vector<double> poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n, n, B, k);
-- 
2.43.0


From 4cfc702ae0f23a660f18081267dc74e54435f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 02/16] fix: ecdf2 aborted when some b_i > B_i instead of
 returning 0

The active range b_step_count-B_step_count+1 became negative, which failed an
assertion in PoissonPMFGenerator::compute_array.
---
 src/ecdf2.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecdf2.cc b/src/ecdf2.cc
index 9cf2dd7..fefbd91 100644
--- a/src/ecdf2.cc
+++ b/src/ecdf2.cc
@@ -121,6 +121,12 @@ double ecdf2(const vector<double>& b, const vector<double>& B, bool use_fft)
     check_boundary_vector("b", n, b);
     check_boundary_vector("B", n, B);
 
+    for (int i = 0; i < n; ++i) {
+        if (b[i] > B[i]) {
+            return 0.0; // No sample satisfies b_i <= X_(i) <= B_i.
+        }
+    }
+
     vector<double> poisson_nocross_probs = poisson_process_noncrossing_probability(n, n, b, B, use_fft);
 
     return poisson_nocross_probs[n] / poisson_pmf(n, n);
-- 
2.43.0


From 57e0e0f1c955d9089c5737c9583d1b91d63bc2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 03/16] fix: ecdf1_mns2016 returned NaN for probabilities that
 are zero or tiny

log() of a non-positive integral.
---
 src/ecdf1_mns2016.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 6d858b6..6fe8bc5 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -228,6 +228,9 @@ double ecdf1_mns2016_b(const vector<double>& b)
     //FLOAT max_coef = maximum_multiplicative_coefficient(p);
     //FLOAT min_coef = minimum_multiplicative_coefficient(p);
     FLOAT integral_result = p.evaluate(1);
+    if (integral_result <= 0) {
+        return 0.0; // The exact value is zero, or smaller than the rounding errors. Its logarithm is not a number.
+    }
     FLOAT log_integral_result = LOG(integral_result);
     FLOAT noncrossing_probability = EXP(LOG_GAMMA(n+1) + log_integral_result - total_exponent_delta*LOG(2));
     // cout << p << endl;
-- 
2.43.0


From f216f0454d2e066c14869ecc8926687667d8eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 04/16] fix: crossprob_mc poisson estimated 0 for every file
 with an empty first line

An empty first line means that there is no bound of that kind, but the number of
steps was limited to b.size()==0, so that every process with a point "crossed".
---
 src/crossprob_mc.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index c515271..5ee81e3 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -121,7 +121,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
 
 static bool does_random_poisson_process_cross(const vector<double>& b, const vector<double>& B, ExponentialRNG& exprng, vector<double>& tmp_buffer)
 {
-    size_t max_steps = b.size();
+    // When b is empty there is no upper bound on the number of steps, but only the first B.size() steps matter.
+    size_t max_steps = b.empty() ? B.size() : b.size();
     assert(tmp_buffer.size() >= max_steps);
 
     size_t num_steps = 0;
@@ -132,6 +133,9 @@ static bool does_random_poisson_process_cross(const vector<double>& b, const vec
             return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
         if (num_steps >= max_steps) {
+            if (b.empty()) {
+                return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
+            }
             return true;
         }
         tmp_buffer[num_steps] = last_x;
@@ -147,7 +151,7 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
 
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
-    vector<double> buffer(b.size() + 1);
+    vector<double> buffer(max(b.size(), B.size()) + 1);
     int count_crossings = 0;
     for (int reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
-- 
2.43.0


From 94ee316bcf273d23d041eaceeaacfcbf961c7057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 05/16] fix: crossprob_mc ran TinyMT64 with uninitialized
 parameters

mat1, mat2 and tmat were indeterminate stack contents, so the generator was not
TinyMT64 and runs with the same seed gave different results.
---
 src/crossprob_mc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 5ee81e3..0e88172 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -17,6 +17,10 @@ class RandomNumberGenerator {
 public:
     RandomNumberGenerator(uint64_t seed) {
         // cout << "Random seed: " << seed << endl;
+        // Standard TinyMT64 parameter set. Must be set before tinymt64_init().
+        random_state.mat1 = 0xfa051f40;
+        random_state.mat2 = 0xffd0fff4;
+        random_state.tmat = UINT64_C(0x58d02ffeffbfffbc);
         tinymt64_init(&random_state, seed);
     }
     double generate_uniform01()
-- 
2.43.0


From d43b9eeac353fc59bacfc178d640a7d312618757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 06/16] fix: check_boundary_vector accepted NaN boundaries

Comparisons with NaN are false, so a NaN passed the monotonicity and range checks.
---
 src/common.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/common.cc b/src/common.cc
index 4519e10..6e84393 100644
--- a/src/common.cc
+++ b/src/common.cc
@@ -2,6 +2,8 @@
 
 #include <stdexcept>
 #include <sstream>
+#include <cstring>
+#include <stdint.h>
 
 using namespace std;
 
@@ -18,6 +20,14 @@ static bool is_monotone_increasing(const vector<double>& v)
     return true;
 }
 
+// Tests the bit pattern, since -ffast-math lets the compiler assume that there are no NaNs.
+static bool is_nan(double x)
+{
+    uint64_t bits;
+    memcpy(&bits, &x, sizeof(bits));
+    return (bits & UINT64_C(0x7fffffffffffffff)) > UINT64_C(0x7ff0000000000000);
+}
+
 void check_boundary_vector(string name, int n, const vector<double>& v)
 {
     if ((int)v.size() != n) {
@@ -26,6 +36,14 @@ void check_boundary_vector(string name, int n, const vector<double>& v)
         throw runtime_error(ss.str());
     }
 
+    for (int i = 0; i < n; ++i) {
+        if (is_nan(v[i])) {
+            stringstream ss;
+            ss << name << "_1,...," << name << "_" << n << " must be numbers, but " << name << "_" << (i+1) << " is NaN.";
+            throw runtime_error(ss.str());
+        }
+    }
+
     if (!is_monotone_increasing(v)) {
         stringstream ss;
         ss << name << "_1,...," << name << "_" << n << " must be monotone non-decreasing.";
-- 
2.43.0


From 58609515df3b4e74e2b9c071aefc84320de18493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 07/16] fix: FFTWConvolver accepted inputs larger than its
 buffers

The limit was maximum_input_size+ROUNDING-1, but the buffers and the plan tables
are only sized for maximum_input_size, so the size check did not prevent overflows.
---
 src/fftwconvolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 4b98a62..c7f5e03 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -26,7 +26,7 @@ int round_up(int n, int rounding)
 }
 
 FFTWConvolver::FFTWConvolver(int maximum_input_size) :
-    maximum_input_size(maximum_input_size+ROUNDING-1),
+    maximum_input_size(maximum_input_size),
     r2c_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL),
     c2r_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL)
 {
-- 
2.43.0


From 04ef8de1e0f860736d9cbf8c225969c72e5f4c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 08/16] fix: Python functions crashed on sequences that end
 before their length

The converter looked at an item before checking that there is one.
---
 python_extension/crossprob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index 4bb2635..ee94afc 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -3515,7 +3515,7 @@ namespace swig {
   struct traits_as<Type, value_category> {
     static Type as(PyObject *obj) {
       Type v;
-      int res = asval(obj, &v);
+      int res = (obj ? asval(obj, &v) : SWIG_ERROR);
       if (!obj || !SWIG_IsOK(res)) {
 	if (!PyErr_Occurred()) {
 	  ::SWIG_Error(SWIG_TypeError,  swig::type_name<Type>());
-- 
2.43.0


From a187ab4332be952ead23a5c8b7b23f33fe7edae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 09/16] fix: crossprob_mc never ended for 2^31 or more
 simulations

---
 src/crossprob_mc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 0e88172..da30a98 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -115,8 +115,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
     RandomNumberGenerator rng(time(NULL) + (n<<20));
 
     vector<double> tmp_buffer(n);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);
     }
 
@@ -156,8 +156,8 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(max(b.size(), B.size()) + 1);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
     }
 
-- 
2.43.0


From b4f161ce5e9ad148b94fb485c543eab599f21eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 10/16] fix: tinymt64_generate_double returned 1.0 for the
 largest outputs

---
 src/tinymt64.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tinymt64.h b/src/tinymt64.h
index eed92de..675b26a 100644
--- a/src/tinymt64.h
+++ b/src/tinymt64.h
@@ -48,7 +48,7 @@
 #define TINYMT64_SH1 11
 #define TINYMT64_SH8 8
 #define TINYMT64_MASK UINT64_C(0x7fffffffffffffff)
-#define TINYMT64_MUL (1.0 / 18446744073709551616.0)
+#define TINYMT64_MUL (1.0 / 9007199254740992.0)
 
 #if defined(__cplusplus)
 extern "C" {
@@ -182,13 +182,14 @@ inline static uint64_t tinymt64_generate_uint64(tinymt64_t * random) {
 
 /**
  * This function outputs floating point number from internal state.
- * This function is implemented using multiplying by 1 / 2^64.
+ * This function is implemented using multiplying by 1 / 2^53.
  * @param random tinymt internal status
  * @return floating point number r (0.0 <= r < 1.0)
  */
 inline static double tinymt64_generate_double(tinymt64_t * random) {
     tinymt64_next_state(random);
-    return tinymt64_temper(random) * TINYMT64_MUL;
+    /* Only the upper 53 bits, since the nearest double to a larger integer may be 2^64. */
+    return (tinymt64_temper(random) >> 11) * TINYMT64_MUL;
 }
 
 /**
-- 
2.43.0


From 64a4f4a5367087c00716f2245cf7ae48ed9d97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 11/16] fix: exactbj could not be imported and its Timer used
 time.clock, which Python no longer has

There is no module utils: the class Timer is in the same file.
---
 benchmarks/exactbj.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/benchmarks/exactbj.py b/benchmarks/exactbj.py
index c415f1a..e211f58 100644
--- a/benchmarks/exactbj.py
+++ b/benchmarks/exactbj.py
@@ -20,7 +20,6 @@ import cpuinfo # pip install py-cpuinfo
 
 
 import crossprob
-from utils import Timer
 import pickler
 from latex_fig_utils import RCPARAMS_LATEX_SINGLE_COLUMN_LARGE, RCPARAMS_LATEX_SINGLE_COLUMN_LARGE_TALL, RCPARAMS_LATEX_SINGLE_COLUMN_WIDE, save_figure
 
@@ -109,14 +108,14 @@ class Timer(object):
             print('%s: ' % text, end='') 
             sys.stdout.flush()
         self.text = text
-        self.start_clock = time.clock()
+        self.start_clock = time.process_time()
         self.start_time = time.time()
 
     def stop(self):
         self.stop_time = time.time()
         self.elapsed = self.stop_time - self.start_time
 
-        self.stop_clock = time.clock()
+        self.stop_clock = time.process_time()
         self.elapsed_cpu_time = self.stop_clock - self.start_clock
 
     def print_elapsed(self):
-- 
2.43.0


From b809462fb90db9ae642b4bc4c06cc5da73dccf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 12/16] fix: Mn_plus_statistic sorted the caller's array

---
 benchmarks/exactbj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarks/exactbj.py b/benchmarks/exactbj.py
index e211f58..3534f9c 100644
--- a/benchmarks/exactbj.py
+++ b/benchmarks/exactbj.py
@@ -40,7 +40,7 @@ def _uniform_order_statistic_cdf(i, n, x):
 
 def Mn_plus_statistic(uniform01_samples):
     assert all(0 <= x <= 1 for x in uniform01_samples)
-    X = asarray(uniform01_samples)
+    X = array(uniform01_samples) # A copy, as it is sorted in place.
     n = len(uniform01_samples)
     X.sort()
     p_values = _uniform_order_statistic_cdf(arange(1,n+1), n, X)
-- 
2.43.0


From 47f9535dbd50f3b205c3e4c770346fb68f3dabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 13/16] fix: a rejected sequence argument leaks the vector it
 was copied to (Python wrapper)

---
 python_extension/crossprob.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index ee94afc..fc398cb 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -4449,10 +4449,11 @@ namespace swig {
 	  return SWIG_OLDOBJ;
 	}
       } else if (PySequence_Check(obj)) {
+	sequence *pseq = 0;
 	try {
 	  SwigPySequence_Cont<value_type> swigpyseq(obj);
 	  if (seq) {
-	    sequence *pseq = new sequence();
+	    pseq = new sequence();
 	    assign(swigpyseq, pseq);
 	    *seq = pseq;
 	    return SWIG_NEWOBJ;
@@ -4460,6 +4461,7 @@ namespace swig {
 	    return swigpyseq.check() ? SWIG_OK : SWIG_ERROR;
 	  }
 	} catch (std::exception& e) {
+	  delete pseq;
 	  if (seq) {
 	    if (!PyErr_Occurred()) {
 	      PyErr_SetString(PyExc_TypeError, e.what());
-- 
2.43.0


From b17cf5d7d280d60df44c8267f7ebe452fb6f2f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 14/16] fix: an exception raised by an argument's own code
 leaks its traceback (Python wrapper)

---
 python_extension/crossprob.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python_extension/crossprob.cc b/python_extension/crossprob.cc
index fc398cb..5e4bfe0 100644
--- a/python_extension/crossprob.cc
+++ b/python_extension/crossprob.cc
@@ -922,7 +922,6 @@ SWIG_Python_AddErrorMsg(const char* mesg)
     PyObject *old_str = PyObject_Str(value);
     const char *tmp = SWIG_Python_str_AsChar(old_str);
     PyErr_Clear();
-    Py_XINCREF(type);
     if (tmp)
       PyErr_Format(type, "%s %s", tmp, mesg);
     else
@@ -930,6 +929,8 @@ SWIG_Python_AddErrorMsg(const char* mesg)
     SWIG_Python_str_DelForPy3(tmp);
     Py_DECREF(old_str);
     Py_DECREF(value);
+    Py_XDECREF(type);
+    Py_XDECREF(traceback);
   } else {
     PyErr_SetString(PyExc_RuntimeError, mesg);
   }
-- 
2.43.0


From ff5aa69116441c5fbd5e24eee1089472e91a3699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:34 +0000
Subject: [PATCH 15/16] Revert "fix: Mn_plus_statistic sorted the caller's
 array"

This reverts commit b809462fb90db9ae642b4bc4c06cc5da73dccf97.
---
 benchmarks/exactbj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarks/exactbj.py b/benchmarks/exactbj.py
index 3534f9c..e211f58 100644
--- a/benchmarks/exactbj.py
+++ b/benchmarks/exactbj.py
@@ -40,7 +40,7 @@ def _uniform_order_statistic_cdf(i, n, x):
 
 def Mn_plus_statistic(uniform01_samples):
     assert all(0 <= x <= 1 for x in uniform01_samples)
-    X = array(uniform01_samples) # A copy, as it is sorted in place.
+    X = asarray(uniform01_samples)
     n = len(uniform01_samples)
     X.sort()
     p_values = _uniform_order_statistic_cdf(arange(1,n+1), n, X)
-- 
2.43.0


From 680d6fa8c654e45587bf23e63a3e2d807cd4e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:34 +0000
Subject: [PATCH 16/16] Revert "fix: exactbj could not be imported ...":
 benchmarks stay as they are

---
 benchmarks/exactbj.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/benchmarks/exactbj.py b/benchmarks/exactbj.py
index e211f58..c415f1a 100644
--- a/benchmarks/exactbj.py
+++ b/benchmarks/exactbj.py
@@ -20,6 +20,7 @@ import cpuinfo # pip install py-cpuinfo
 
 
 import crossprob
+from utils import Timer
 import pickler
 from latex_fig_utils import RCPARAMS_LATEX_SINGLE_COLUMN_LARGE, RCPARAMS_LATEX_SINGLE_COLUMN_LARGE_TALL, RCPARAMS_LATEX_SINGLE_COLUMN_WIDE, save_figure
 
@@ -108,14 +109,14 @@ class Timer(object):
             print('%s: ' % text, end='') 
             sys.stdout.flush()
         self.text = text
-        self.start_clock = time.process_time()
+        self.start_clock = time.clock()
         self.start_time = time.time()
 
     def stop(self):
         self.stop_time = time.time()
         self.elapsed = self.stop_time - self.start_time
 
-        self.stop_clock = time.process_time()
+        self.stop_clock = time.clock()
         self.elapsed_cpu_time = self.stop_clock - self.start_clock
 
     def print_elapsed(self):
-- 
2.43.0

