From e9bac77bd4ec0b1ec3c2b3050c3f290cd9ed250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 01/27] fix: room for every match in Time.common_map when both
 axes repeat times

---
 pygeode/timeaxis.c  | 2 +-
 pygeode/timeaxis.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeaxis.c b/pygeode/timeaxis.c
index f6268bc..fceba21 100644
--- a/pygeode/timeaxis.c
+++ b/pygeode/timeaxis.c
@@ -172,7 +172,7 @@ int common_map (int natts, int na, int *a, int nb, int *b, int *nmap, int *a_map
     int cmp = CMP(a,ai,b,bi);
     // A match?
     if (cmp == 0) {
-      assert (m < na || m < nb);
+      assert (m < na + nb);
       a_map[m] = ai;
       b_map[m] = bi;
       m++;
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 9b88766..d305d42 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -256,7 +256,8 @@ class Time (TAxis):
     a = np.ascontiguousarray(a[a_ind,:],dtype='int32')
     b = np.ascontiguousarray(b[b_ind,:],dtype='int32')
     # Outputs
-    nmap = max(na,nb)
+    # (if times are repeated in both axes there can be more matches than entries in either one)
+    nmap = na + nb
     a_map = np.empty(nmap, 'int32')
     b_map = np.empty(nmap, 'int32')
 
-- 
2.43.0


From aa0a209498bd53bb5a0613ed87adf21b9ed8919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 02/27] fix: View.get with repeated indices (comparison of
 index arrays of different length)

---
 pygeode/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index a7b06bd..f781d3e 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -233,7 +233,7 @@ class View:
 
     # Only request unique elements from the input
     unique_indices = [np.unique(ind) for ind in newview.integer_indices]
-    if all(np.all(u == ind) for u,ind in zip(unique_indices, newview.integer_indices)):
+    if all(len(u) == len(ind) and np.all(u == ind) for u,ind in zip(unique_indices, newview.integer_indices)):
       # already unique
       duplicator = ()
       unique_view = newview
-- 
2.43.0


From f5d8676b1bb35440ef99eeda5bec7b6dce13ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 03/27] fix: map_to found no match for values after repeated
 (or equally close) values in the searched axis

---
 pygeode/tools.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygeode/tools.c b/pygeode/tools.c
index c62703b..3bc6fb7 100644
--- a/pygeode/tools.c
+++ b/pygeode/tools.c
@@ -133,13 +133,17 @@ int map_to (int na, double *a_orig, int nb, double *b_orig, int *indices, double
     double B = b[bi];
 //    double check = atol + rtol * fabs(B);
     // Find a that's closest to b
+    // (keep going through values which are equally close, such as repeated values)
     while (ai < na-1) {
-      if (fabs(a[ai+1]-B) < fabs(a[ai]-B)) ai++;
+      if (fabs(a[ai+1]-B) <= fabs(a[ai]-B)) ai++;
       else break;
     }
+    // Use the first of the values which are equally close
+    int aj = ai;
+    while (aj > 0 && fabs(a[aj-1]-B) <= fabs(a[aj]-B)) aj--;
     // Check if it's a match
-    //printf("A: %d %e <-> B: %d %e\n", a_ind[ai], a[ai], b_ind[bi], b[bi]);
-    if (fabs(a[ai]-B) <= rtol*fabs(B)) indices[b_ind[bi]] = a_ind[ai];
+    //printf("A: %d %e <-> B: %d %e\n", a_ind[aj], a[aj], b_ind[bi], b[bi]);
+    if (fabs(a[aj]-B) <= rtol*fabs(B)) indices[b_ind[bi]] = a_ind[aj];
     // Otherwise, check if no more matches are expected
     else if (ai == na-1) continue;
   }
-- 
2.43.0


From c0c76f34e4a2f37c99341778ef5f4ae092453a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 04/27] fix: interpolation with missing samples read outside
 the input and depended on the first column

---
 pygeode/interp.c | 50 ++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/pygeode/interp.c b/pygeode/interp.c
index 03d0066..c7d9c82 100644
--- a/pygeode/interp.c
+++ b/pygeode/interp.c
@@ -38,29 +38,6 @@ int interpgsl (int narrays, int nxin, int nxout,
   double *local_xin, *local_xout, *local_yin;
   double dx, xmin, ymin, xmax, ymax;
 
-  // Check the order of the x coordinates
-  // If the order seems to be reversed, then flip the sign of the coordinates
-  if (nxin > 1) {
-    i = 0;
-    do {
-      dx = xin[i + 1] - xin[i];
-    } while (!isfinite(dx) && ++i < nxin);
-  } else {
-    dx = 1.;
-  }
-
-  if (!isfinite(dx) || dx == 0. ) { return -1; }
-  
-  if (dx < 0.) {
-    start = nxin - 1; 
-    end = -1;
-    step = -1;
-  } else {
-    start = 0;
-    end = nxin;
-    step = 1;
-  }
-
   local_xin = (double *) malloc(nxin * sizeof(double));
   local_yin = (double *) malloc(nxin * sizeof(double));
   local_xout = (double *) malloc(nxout * sizeof(double));
@@ -76,6 +53,25 @@ int interpgsl (int narrays, int nxin, int nxout,
   if (NULL == acc) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate gsl_interp_accel object."); goto clean_err;}
 
   for (n = 0; n < narrays; n++) {
+    // Check the order of the x coordinates (from the first valid points of this array)
+    // If the order seems to be reversed, then go through the points backwards
+    dx = 0.;
+    for (i = 0, j = -1; i < nxin && dx == 0.; i++) {
+      if (isfinite(yin[i]) && isfinite(xin[i])) {
+        if (j >= 0) dx = xin[i] - xin[j];
+        j = i;
+      }
+    }
+    if (dx < 0.) {
+      start = nxin - 1;
+      end = -1;
+      step = -1;
+    } else {
+      start = 0;
+      end = nxin;
+      step = 1;
+    }
+
     // Search for nans, resort if necessary
     for (i = start, j = 0; i != end; i += step) {
       if (isfinite(yin[i]) && isfinite(xin[i])) {
@@ -89,10 +85,6 @@ int interpgsl (int narrays, int nxin, int nxout,
       }
     }
 
-    // Save extremal points for extrapolation
-    xmin = local_xin[0];
-    xmax = local_xin[j-1];
-
     if (loop_xout) {
       for (i = 0; i < nxout; i++) local_xout[i] = xout[i]; 
     }
@@ -109,6 +101,10 @@ int interpgsl (int narrays, int nxin, int nxout,
       continue;
     }
 
+    // Save extremal points for extrapolation
+    xmin = local_xin[0];
+    xmax = local_xin[j-1];
+
     interp = gsl_interp_alloc (type, j);
     if (NULL == interp) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate interp object."); goto clean_err;}
 
-- 
2.43.0


From 74ea526415f7c257ea7b5e46a7d42d36171c9812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 05/27] fix: partial sums of non-contiguous or byte-swapped
 data

---
 pygeode/tools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pygeode/tools.py b/pygeode/tools.py
index 602f3ca..2ee7bf7 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -461,6 +461,10 @@ def partial_sum (arr, sl, bigout, bigcount, iaxis, outmap):
 # {{{
   import numpy as np
 
+  # The C code works on the raw memory, so it has to be contiguous and in the native byte order
+  arr = np.ascontiguousarray(arr, dtype=arr.dtype.newbyteorder('='))
+  outmap = np.ascontiguousarray(outmap)
+
 #  out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=bigout.dtype)
   out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=arr.dtype)
   count = np.zeros(arr.shape[:iaxis] + (bigcount.shape[iaxis],) + arr.shape[iaxis+1:], dtype='int32')
@@ -493,6 +497,10 @@ def partial_nan_sum (arr, sl, bigout, bigcount, iaxis, outmap):
 # {{{
   import numpy as np
 
+  # The C code works on the raw memory, so it has to be contiguous and in the native byte order
+  arr = np.ascontiguousarray(arr, dtype=arr.dtype.newbyteorder('='))
+  outmap = np.ascontiguousarray(outmap)
+
 #  out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=bigout.dtype)
   out = np.zeros(arr.shape[:iaxis] + (bigout.shape[iaxis],) + arr.shape[iaxis+1:], dtype=arr.dtype)
   count = np.zeros(arr.shape[:iaxis] + (bigcount.shape[iaxis],) + arr.shape[iaxis+1:], dtype='int32')
-- 
2.43.0


From 3a0f628f3c64c2cdfc5269cfb37fe8a18940fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 06/27] fix: out-of-range slices and negative positions in
 view.expand

---
 pygeode/view.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index f781d3e..3a64668 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -14,27 +14,18 @@ def expand (ind, upper_bound):
   '''Expand a slice or integer into an explicit array of indices'''
   import numpy as np
   # already a list?
-  if hasattr(ind,'__len__'): return np.array(ind, dtype='int32')
+  if hasattr(ind,'__len__'):
+    ind = np.array(ind, dtype='int32')
+    # negative indices count from the end
+    return np.where(ind < 0, ind + upper_bound, ind).astype('int32')
   # a single integer index?
-  if isinstance(ind,int): return np.array([ind], dtype='int32')
+  if isinstance(ind,(int,np.integer)):
+    if ind < 0: ind += upper_bound
+    return np.array([ind], dtype='int32')
   # Otherwise, we should have a slice now
   assert isinstance(ind,slice), "unknown slicing mechanism - "+repr(ind)
-  # Make sure start, stop, and step are positive integers
-#  ind = fix_slice(ind, upper_bound)
-#  return np.arange(ind.start, ind.stop, ind.step)
-
-  start, stop, step = ind.start, ind.stop, ind.step
-  if step is None: step = 1
-  assert step != 0
-  if start is None:
-    if step > 0: start = 0
-    else: start = upper_bound-1
-  if start < 0: start += upper_bound
-
-  if stop is None:
-    if step > 0: stop = upper_bound
-    else: stop = -1
-  elif stop < 0: stop += upper_bound
+  # Make sure start, stop, and step refer to positions that exist
+  start, stop, step = ind.indices(upper_bound)
 
   return np.arange(start, stop, step, dtype='int32')
 # }}}
-- 
2.43.0


From ba796376e51c808ab188188bb6da168ba2f4c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 07/27] fix: shape of an empty selection when the view and the
 variable order their axes differently

---
 pygeode/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index 3a64668..9f095c5 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -219,7 +219,8 @@ class View:
 #      print 'mapped view:', newview.axes, newview.slices
 #      raise Exception
 
-      return np.empty([s if o > -1 else 1 for s,o in zip(newview.shape,order)], var.dtype)
+      if conform is False: return np.empty(newview.shape, var.dtype)
+      return np.empty([newview.shape[o] if o > -1 else 1 for o in order], var.dtype)
     assert newview.axes == var.axes                              # Or it gets the hose again
 
     # Only request unique elements from the input
-- 
2.43.0


From 3219603e858eeed25068e41c61b4df0eb576ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 08/27] fix: slicing an axis with repeated values left its
 auxiliary arrays unsliced

---
 pygeode/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 1c331c2..4d8282d 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -361,7 +361,9 @@ class Axis(Var):
     values = np.array(self.values[slices], ndmin=1, copy=False)
 
     # Check if we even need to do any slicing
-    if len(values) == len(self.values) and np.all(values==self.values): return self
+    # (the auxiliary arrays have to be unchanged as well; they can differ between points with equal values)
+    if len(values) == len(self.values) and np.all(values==self.values):
+      if all(np.all(val[slices] == val) for val in self.auxarrays.values()): return self
 
     aux = {}
 
-- 
2.43.0


From 683f8be312b07f17a78bead13e359e939c9472d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 09/27] fix: comparison of named axes with their subclasses,
 and != of axes disagreeing with ==

---
 pygeode/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 4d8282d..9efc827 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -205,7 +205,7 @@ class Axis(Var):
   #TODO: fix inconsistency between Axis and Var, for == and !=
   #      Vars produce a boolean mask under those operations, Axes return scalar True/False
   # I.e., "lat == 30" and "(lat*1) == 30" give very different results!
-  def __ne__ (self, other): return not is_equivalent(self, other)
+  def __ne__ (self, other): return not self == other
   def __eq__ (self, other): return is_equivalent(self, other)
 
   def alleq (self, *others):
@@ -763,7 +763,7 @@ class NamedAxis (Axis):
 
   def __eq__ (self, other):
   # {{{
-    if type(other) is not NamedAxis: return False
+    if not isinstance(other, NamedAxis): return False
 
     # Check the names
     if self.name != other.name: return False
-- 
2.43.0


From 13f5d6dc80cd39ceaaa9cdef20d5dba0e514abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 10/27] fix: axes with closely spaced values compared equal to
 different axes

---
 pygeode/axis.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 9efc827..7cf28a0 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -651,6 +651,32 @@ class Axis(Var):
   # }}}
 # }}}
 
+def _value_rtol (ax):
+# {{{
+  ''' Relative tolerance for comparing the values of an axis to those of
+      another one; smaller than the relative spacing of its values.'''
+  return min(1e-5, 0.1 * ax.rtol)
+# }}}
+
+def _values_match (a, b, rtol):
+# {{{
+  ''' Whether all values of two arrays of the same length agree to within a
+      relative tolerance. Symmetric with respect to a and b.'''
+  import numpy as np
+  try:
+    a, b = np.asarray(a, 'd'), np.asarray(b, 'd')
+  except (TypeError, ValueError):
+    return bool(np.all(a == b))
+  # Allow for round-off around zero, but not for as much as the spacing of the values
+  atol = 1e-8
+  for v in (a, b):
+    dv = np.abs(np.diff(v))
+    dv = dv[dv > 0]
+    if len(dv) > 0: atol = min(atol, rtol * dv.min())
+  with np.errstate(invalid='ignore'):
+    return bool(np.all((a == b) | (np.abs(a - b) <= np.maximum(atol, rtol * np.maximum(np.abs(a), np.abs(b))))))
+# }}}
+
 def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name = False, rtol = 'max'):
 # {{{
   ''' Checks whether two :class:`Axis' instances are equivalent.
@@ -715,11 +741,11 @@ def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name =
   # Check the values
   from numpy import allclose
   if rtol == 'max':
-    rtol = max(ax1.auxatts.get('rtol', 1e-5), ax2.auxatts.get('rtol', 1e-5))
+    rtol = max(_value_rtol(ax1), _value_rtol(ax2))
   elif rtol == 'min':
-    rtol = min(ax1.auxatts.get('rtol', 1e-5), ax2.auxatts.get('rtol', 1e-5))
+    rtol = min(_value_rtol(ax1), _value_rtol(ax2))
 
-  if not allclose(ax1.values, ax2.values, rtol = rtol):
+  if not _values_match(ax1.values, ax2.values, rtol):
 #   print 'values mismatch'
     return False
 
-- 
2.43.0


From af28bb5f7a473a0ab5c9299da68f04957e80f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 11/27] fix: reading lagged variables and split or joined time
 axes (indexing with a list)

---
 pygeode/timeutils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 31de022..650b3a2 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -332,9 +332,9 @@ class LagVar(Var):
       insl[self.iaxis] = tind[ivalid] + l - imin
       outsl[self.iaxis] = ivalid
       outsl[self.iaxis+1] = i
-      out[outsl] = src[insl]
+      out[tuple(outsl)] = src[tuple(insl)]
       outsl[self.iaxis] = np.where(~valid)[0]
-      out[outsl] = np.nan
+      out[tuple(outsl)] = np.nan
     
     return out
   # }}}
@@ -466,7 +466,7 @@ class SplitTime (Var):
     out = out.reshape(squished_shape)
     sl = [slice(None)] * out.ndim
     sl[iaxis] = out_sl
-    out[sl] = indata
+    out[tuple(sl)] = indata
 
     # Restore the shape
     out = out.reshape(view.shape)
@@ -541,7 +541,7 @@ class JoinTime(Var):
     data = np.rollaxis(data, daxis, yaxis+1)
     # Then, combine then
     shape = list(data.shape)
-    shape = shape[:yaxis] + [-1] + shape[daxis+1:]
+    shape = shape[:yaxis] + [-1] + shape[yaxis+2:]
     data = data.reshape(shape)
 
     # Now, we may have slightly more data than we actually need
@@ -552,7 +552,7 @@ class JoinTime(Var):
     # Slice out what we actually wanted from this
     slices = [slice(None)] * data.ndim
     slices[taxis] = uber_time.map_to(times)
-    return data[slices]
+    return data[tuple(slices)]
 # }}}
 # }}}
 
-- 
2.43.0


From 2c92fee90f46dd26c804cf9435d24f1dff0f2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 12/27] fix: argmax and argmin of data read in more than one
 piece, or along an axis given by number

---
 pygeode/reduce.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 6f47b7b..9463fb2 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -126,6 +126,7 @@ class ArgMaxVar(ReducedVar):
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
+    if isinstance(index,(list,tuple)): index = index[0]
     index = var.whichaxis(index)
 
     self.N = len(axes[index])
@@ -144,7 +145,8 @@ class ArgMaxVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    # The position is only known once the whole axis has been seen, so don't split it up
+    for outsl, (indata,) in loopover(self.var, view, preserve=[index], pbar=pbar):
       out[outsl] = np.argmax(indata, index)
     return out
 # }}}
@@ -155,6 +157,7 @@ class ArgMinVar(ReducedVar):
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
+    if isinstance(index,(list,tuple)): index = index[0]
     index = var.whichaxis(index)
 
     self.N = len(axes[index])
@@ -173,7 +176,8 @@ class ArgMinVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    # The position is only known once the whole axis has been seen, so don't split it up
+    for outsl, (indata,) in loopover(self.var, view, preserve=[index], pbar=pbar):
       out[outsl] = np.argmin(indata, index)
     return out
 # }}}
@@ -572,7 +576,7 @@ def argmax (var, axis):
     --------
     argmin
   '''
-  return ArgMaxVar(var, axis)
+  return ArgMaxVar(var, [axis])
 # }}}
 def argmin (var, axis): 
 # {{{
@@ -594,7 +598,7 @@ def argmin (var, axis):
     --------
     argmax
   '''
-  return ArgMinVar(var, axis)
+  return ArgMinVar(var, [axis])
 # }}}
 
 
-- 
2.43.0


From c5edac8e5b47b1b47a0f2dd37165e98ddc579509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 13/27] fix: reductions of integer and boolean data

---
 pygeode/reduce.py | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 9463fb2..e1db195 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -6,9 +6,29 @@
 
 from pygeode.var import Var
 
+# Data types which can hold the results of a reduction
+# (like numpy, integers are summed as wide integers, and averaged as floating point numbers)
+def _same_dtype (dtype): return dtype
+def _sum_dtype (dtype):
+  import numpy as np
+  return np.zeros(1,dtype).sum().dtype
+def _float_dtype (dtype):
+  import numpy as np
+  return np.zeros(1,dtype).mean().dtype
+
+# Lowest and highest value of a data type
+def _limits (dtype):
+  import numpy as np
+  if dtype.kind in 'iu': return np.iinfo(dtype).min, np.iinfo(dtype).max
+  if dtype.kind == 'b': return False, True
+  return float('-inf'), float('inf')
+
 #########################
 class ReducedVar(Var):
 # {{{
+  # How to determine the data type of the result
+  _outdtype = staticmethod(_same_dtype)
+
   def __new__ (type, var, indices, *args, **kwargs):
   # {{{
     from pygeode.var import Var
@@ -66,7 +86,7 @@ class ReducedVar(Var):
     # Remove the reduction axis from the output variable
     axes = [a for i,a in enumerate(axes) if i not in indices]
 
-    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    Var.__init__(self, axes, dtype=self._outdtype(dtype), name=var.name, atts=var.atts, plotatts=var.plotatts)
 
   # }}}
 # }}}
@@ -77,7 +97,7 @@ class MinVar(ReducedVar):
     import numpy as np
     from pygeode.tools import loopover, npmin
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('inf')
+    out[()] = _limits(self.dtype)[1]
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.minimum(out[outsl], npmin(indata, self.indices))
     return out
@@ -85,6 +105,7 @@ class MinVar(ReducedVar):
 
 class NANMinVar(ReducedVar):
 # {{{
+  _outdtype = staticmethod(_float_dtype)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnanmin
@@ -101,7 +122,7 @@ class MaxVar(ReducedVar):
     import numpy as np
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('-inf')
+    out[()] = _limits(self.dtype)[0]
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.maximum(out[outsl], npmax(indata, self.indices))
     return out
@@ -109,6 +130,7 @@ class MaxVar(ReducedVar):
 
 class NANMaxVar(ReducedVar):
 # {{{ 
+  _outdtype = staticmethod(_float_dtype)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnanmax
@@ -184,6 +206,7 @@ class ArgMinVar(ReducedVar):
 
 class SumVar(ReducedVar):
 # {{{
+  _outdtype = staticmethod(_sum_dtype)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -195,6 +218,7 @@ class SumVar(ReducedVar):
 class WeightedSumVar(ReducedVar):
 # {{{
   '''WeightedSumVar(ReducedVar) - computes weighted sum.'''
+  _outdtype = staticmethod(_float_dtype)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -219,6 +243,7 @@ class WeightedSumVar(ReducedVar):
 
 class NANSumVar(ReducedVar):
 # {{{
+  _outdtype = staticmethod(_float_dtype)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -231,6 +256,7 @@ class NANSumVar(ReducedVar):
 class WeightedNANSumVar(ReducedVar):
 # {{{
   '''WeightedNANSumVar(ReducedVar) - computes weighted sum, neglecting NaNs.'''
+  _outdtype = staticmethod(_float_dtype)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -259,6 +285,7 @@ class WeightedNANSumVar(ReducedVar):
 class MeanVar(ReducedVar):
 # {{{
   '''MeanVar(ReducedVar) - computes unweighted mean.'''
+  _outdtype = staticmethod(_float_dtype)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -271,6 +298,7 @@ class MeanVar(ReducedVar):
 class WeightedMeanVar(ReducedVar):
 # {{{
   '''WeightedMeanVar(ReducedVar) - computes weighted mean.'''
+  _outdtype = staticmethod(_float_dtype)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -300,6 +328,7 @@ class WeightedMeanVar(ReducedVar):
 class NANMeanVar(ReducedVar):
 # {{{
   '''NANMeanVar(ReducedVar) - computes unweighted mean, ignoring NANs.'''
+  _outdtype = staticmethod(_float_dtype)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -320,6 +349,7 @@ class NANMeanVar(ReducedVar):
 class WeightedNANMeanVar(ReducedVar):
 # {{{ 
   '''WeightedNANMeanVar(ReducedVar) - computes weighted mean.'''
+  _outdtype = staticmethod(_float_dtype)
   def __init__(self, var, indices, weights):
   #  {{{
     ReducedVar.__init__(self, var, indices)
@@ -356,6 +386,7 @@ class WeightedNANMeanVar(ReducedVar):
 #TODO: make it more numerically stable, add weights
 class VarianceVar(ReducedVar):
 # {{{
+  _outdtype = staticmethod(_float_dtype)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -364,7 +395,7 @@ class VarianceVar(ReducedVar):
     N = self.N
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       x[outsl] += npsum(indata, self.indices)  
-      x2[outsl] += npsum(indata**2, self.indices)  
+      x2[outsl] += npsum(np.asarray(indata,self.dtype)**2, self.indices)  
 
     x /= N
     return (x2 - N*x**2) / (N - 1)
@@ -372,6 +403,7 @@ class VarianceVar(ReducedVar):
 class WeightedVarianceVar(ReducedVar):
 # {{{
   '''WeightedVarianceVar(ReducedVar) - computes weighted mean.'''
+  _outdtype = staticmethod(_float_dtype)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -392,7 +424,7 @@ class WeightedVarianceVar(ReducedVar):
     W = np.zeros(view.shape, self.dtype)
     for outsl, (indata, inw) in loopover([self.var, self.mweights], view, self.var.axes, pbar=pbar):
       x[outsl] += npsum(indata * inw, self.indices)  # Product of data and weights
-      x2[outsl] += npsum(indata**2 * inw, self.indices)  # Product of data and weights
+      x2[outsl] += npsum(np.asarray(indata,self.dtype)**2 * inw, self.indices)  # Product of data and weights
       f = indata.size / (inw.size * x[outsl].size)
       W[outsl] += npsum(inw, self.indices) * f # Sum of weights
 
@@ -403,6 +435,7 @@ class WeightedVarianceVar(ReducedVar):
 # NB: There is possibly an issue with this for integer datatypes
 class NANVarianceVar(ReducedVar):
 # {{{
+  _outdtype = staticmethod(_float_dtype)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -416,7 +449,7 @@ class NANVarianceVar(ReducedVar):
       x[outsl] = np.nansum([x[outsl],\
                   npnansum(indata, self.indices)], 0)
       x2[outsl] = np.nansum([x2[outsl],\
-                  npnansum(indata**2, self.indices)], 0)  
+                  npnansum(np.asarray(indata,self.dtype)**2, self.indices)], 0)  
       N[outsl] = np.nansum([N[outsl],
                   npnansum(~np.isnan(indata), self.indices)], 0)
 
-- 
2.43.0


From 15796b41c66d56cd32856ec3ef456cc5da6a790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 14/27] fix: seasons on the standard calendar (31 May, 31
 August and 30 November counted in the following season)

---
 pygeode/timeaxis.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index d305d42..97c6e08 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -831,7 +831,6 @@ def makeSeasonalAxis(Base):
     # For now seasonal definitions are hard coded
     nseasons = 4
     seasons = ['DJF', 'MAM', 'JJA', 'SON']
-    season_boundaries = [(-30,60),(60,152),(152,244),(244,335)]
     cdates = {'dyear':np.array([0, 0, 0, 0]),
               'month':np.array([1,4,7,10]),
               'day':np.array([16, 15, 16, 16])}
@@ -842,24 +841,12 @@ def makeSeasonalAxis(Base):
     # Convention: December 2006 -> DJF 2007
     def _get_seasons (self, dates):
   # {{{
-      import numpy as np
       year, month, day, hour, minute, second = Base._get_dates(dates)
-      doy = Base._getdoy(self, dates)         # Base season on day of the year (no support for leap years(!))
-
-      if hasattr(year, '__len__'):
-        season = np.zeros(len(year), 'i')
-        for i, s in enumerate(self.season_boundaries):
-          mplus = (s[0] <= doy - 365) & (doy - 365 < s[1])
-          m = (s[0] <= doy) & (doy < s[1])
-          mminus = (s[0] <= doy + 365) & (doy + 365 < s[1])
-          year[mplus] += 1
-          year[mminus] -= 1
-          season[mplus | m | mminus] = i + 1
-      else:
-        for i, s in enumerate(self.season_boundaries):
-          if s[0] <= doy - 365 < s[1]: year += 1; season = i + 1
-          elif s[0] <= doy < s[1]: season = i + 1
-          elif s[0] <= doy + 365 < s[1]: year -= 1; season = i + 1
+
+      # Seasons are whole calendar months
+      # (the day of the year would depend on the presence of a leap day)
+      season = month % 12 // (12 // self.nseasons) + 1
+      year = year + (month == 12)
 
       return {'year':year, 'season':season}
   # }}}
-- 
2.43.0


From 20c3ea94a5aeb8c6e7112974e4a55f5108774756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 15/27] fix: seasons of a single time step (axis values ended
 up scalar)

---
 pygeode/timeaxis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 97c6e08..70c3a9c 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -841,7 +841,8 @@ def makeSeasonalAxis(Base):
     # Convention: December 2006 -> DJF 2007
     def _get_seasons (self, dates):
   # {{{
-      year, month, day, hour, minute, second = Base._get_dates(dates)
+      use_arrays = any(hasattr(d,'__len__') for d in dates.values())  # (could be arrays of length 1)
+      year, month, day, hour, minute, second = Base._get_dates(dates, use_arrays)
 
       # Seasons are whole calendar months
       # (the day of the year would depend on the presence of a leap day)
-- 
2.43.0


From fdd491442efb0a57df89519595a00b5af0c567b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 16/27] fix: time aggregation of integer data, and standard
 deviations missing for constant data

---
 pygeode/climat.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index adda199..d19a872 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -11,6 +11,8 @@ __all__ = ('climatology', 'dailymean', 'monthlymean',
            'climtrend', 'from_trend')
 
 from pygeode.var import Var
+# Integers are aggregated as floating point numbers
+from pygeode.reduce import _float_dtype
 
 # Loop over a variable, applying the specified view.
 # Outputs iterations of:
@@ -54,7 +56,7 @@ def loopover(varlist, view, pbar):
   for i, (inv, climv) in enumerate(loop):
     subpbar = pbar.part(i, len(loop))
     data = [inv.get(var, pbar = subpbar.subset(prog[j],prog[j+1])) for j,var in enumerate(varlist)]
-    data = [np.ascontiguousarray(d) for d in data]
+    data = [np.ascontiguousarray(d, dtype=_float_dtype(d.dtype)) for d in data]
     slices = list(climv.slices)
     slices[ti] = slice(None)
     yield slices, data, climv.integer_indices[ti]
@@ -182,7 +184,7 @@ class TimeOp(Var):
 
     axes = list(var.axes)
     axes[ti] = outtime
-    Var.__init__ (self, axes+list(self.extra_dims), dtype = var.dtype, atts=var.atts)
+    Var.__init__ (self, axes+list(self.extra_dims), dtype = _float_dtype(var.dtype), atts=var.atts)
 # }}}
 
 class Mean(TimeOp):
@@ -251,7 +253,8 @@ class Stdev(TimeOp):
 
     x /= nx
     var = (xx - nx*x**2) / (nx - 1)
-    return np.sqrt(var)
+    # Very small variances may become negative due to numerical issues
+    return np.sqrt(np.maximum(var, 0))
 # }}}
 
 class NANStdev(TimeOp):
@@ -280,7 +283,8 @@ class NANStdev(TimeOp):
 
     x /= nx
     var = (xx - nx*x**2) / (nx - 1)
-    return np.sqrt(var)
+    # Very small variances may become negative due to numerical issues
+    return np.sqrt(np.maximum(var, 0))
 # }}}
 
 class Count(TimeOp):
-- 
2.43.0


From ce4eed3d30e674eed60d53711ee53e74a3cd454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 17/27] fix: unfill altered large integers (and could match the
 fill value after rounding)

---
 pygeode/varoperations.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 64832b3..2ca70a5 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -583,21 +583,21 @@ def fill (self, fill):
 # NOTE: if input values are integers, they are converted to floats
 class UnfillVar(Var):
   def __init__(self, var, fill):
-    from numpy import float32, float64
+    from numpy import result_type
     from pygeode.var import Var, copy_meta
     self.var = var
     self._fill = fill
     # We need floating-point values to have a nan
-    if var.dtype not in (float32, float64):
-      dtype = float32
-    else: dtype = var.dtype
+    # (use a type which can hold all the other values)
+    dtype = result_type(var.dtype, 'float32')
     Var.__init__(self, var.axes, dtype)
     copy_meta (var, self)
   def getview(self, view, pbar):
     import numpy as np
-    data = view.get(self.var, pbar=pbar).copy()
-    data = np.asarray(data, self.dtype)
-    data[np.where(data == self._fill)] = float('NaN')
+    data = view.get(self.var, pbar=pbar)
+    w = np.where(data == self._fill)
+    data = np.array(data, self.dtype)
+    data[w] = float('NaN')
     return data
 
 def unfill (self, fill):
-- 
2.43.0


From 5524defe15c61acbaf710080b1c8a695d2ed1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 18/27] fix: decoding of fill value 0, of several fill values,
 and of values which don't fit single precision

---
 pygeode/formats/cfmeta.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 6ad79c9..6bc5fb6 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -20,13 +20,18 @@ from pygeode.var import Var
 class var_newaxes (Var):
   def __init__(self, var, newaxes, name=None, fillvalue=None, scale=None, offset=None, atts={}, plotatts={}):
     from pygeode.var import Var, copy_meta 
+    import numpy as np
     atts = atts.copy()
     plotatts = plotatts.copy()
     assert len(newaxes) == len(var.axes)
     for a1, a2 in zip(newaxes, var.axes): assert len(a1) == len(a2)
     self.var = var
     dtype = var.dtype
-    if fillvalue is not None or scale is not None or offset is not None: dtype = 'float32'
+    # (there may be several fill values)
+    fillvalue = [] if fillvalue is None else list(np.ravel(fillvalue))
+    # The decoded values need a type with missing values, which can hold the scaled data
+    if len(fillvalue) > 0 or scale is not None or offset is not None:
+      dtype = np.result_type(dtype, 'float32', *[np.asarray(x).dtype for x in (scale, offset) if x is not None])
     self.fillvalue = fillvalue
     self.scale = scale
     self.offset = offset
@@ -47,12 +52,11 @@ class var_newaxes (Var):
     # (should work if the axes are in 1:1 correspondence)
     data = View(self.var.axes, force_slices=view.slices,
                 force_integer_indices=view.integer_indices).get(self.var, pbar=pbar)
-    if fillvalue is not None or scale is not None or offset is not None: data = np.copy(data)
-    if fillvalue is not None: w = np.where(data==fillvalue)
-    data = np.asarray(data, self.dtype)
+    missing = [np.where(data==f) for f in fillvalue]
+    if len(missing) > 0 or scale is not None or offset is not None: data = np.array(data, self.dtype)
     if scale is not None: data *= scale
     if offset is not None: data += offset
-    if fillvalue is not None: data[w] = float('nan')
+    for w in missing: data[w] = float('nan')
 
     return data
 
@@ -292,6 +296,7 @@ def decode_cf (dataset, ignore=[]):
   from pygeode import timeutils
   from warnings import warn
   import re
+  import numpy as np
 
 #  dataset = asdataset(dataset, copy=True)
   dataset = asdataset(dataset)
@@ -468,8 +473,8 @@ def decode_cf (dataset, ignore=[]):
     atts = oldvar.atts.copy()
     plotatts = oldvar.atts.copy()
     fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
-    fillvalue = [_f for _f in fillvalue if _f]
-    fillvalue = fillvalue[0] if len(fillvalue) > 0 else None
+    fillvalue = [_f for f in fillvalue if f is not None for _f in np.ravel(f)]
+    if oldvar.dtype.kind not in 'biufc': fillvalue = None  # (character data)
     scale = atts.pop('scale_factor', None)
     offset = atts.pop('add_offset', None)
     units = atts.get('units', None)
-- 
2.43.0


From e4185ddd9430fe34d03fdaf275678620188837f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 19/27] fix: packing of missing values and of constant fields,
 and of fields with a large offset

---
 pygeode/formats/__init__.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pygeode/formats/__init__.py b/pygeode/formats/__init__.py
index 4645640..837a168 100644
--- a/pygeode/formats/__init__.py
+++ b/pygeode/formats/__init__.py
@@ -33,16 +33,25 @@ class PackVar(Var):
 
     # At present data is packed into short integers following the packing
     # algorithm described in the NetCDF Operator documentation
+    # (-32768 is not needed for the values, so it's used for missing data)
     dtype = np.int16
+    self.fillvalue = dtype(-2**15)
 
-    min = var.nanmin()
-    max = var.nanmax()
-    self.scale = (max - min) / (2**16 - 2.)
-    self.offset = 0.5 * (min + max)
+    min = float(var.nanmin())
+    max = float(var.nanmax())
+    if min < max:
+      self.scale = (max - min) / (2**16 - 2.)
+      self.offset = 0.5 * (min + max)
+    else:  # constant (or no valid data)
+      self.scale = 1.
+      self.offset = 0. if np.isnan(min) else min
 
     Var.__init__(self, var.axes, dtype=dtype)
 
     copy_meta(var, self)
+    # Any existing fill value was for the unpacked data
+    for f in ('FillValue', 'missing_value'): self.atts.pop(f, None)
+    self.atts['_FillValue'] = self.fillvalue
     self.atts['packing_convention'] = 'NetCDF (16 bit)'
     self.atts['scale_factor'] = self.scale
     self.atts['add_offset'] = self.offset
@@ -50,7 +59,11 @@ class PackVar(Var):
 
   def getview (self, view, pbar):
   # {{{
-    return ((view.get(self.var, pbar) - self.offset) / self.scale).astype(self.dtype)
+    import numpy as np
+    data = np.asarray(view.get(self.var, pbar), 'float64')
+    missing = np.isnan(data)
+    data = np.round((np.where(missing, self.offset, data) - self.offset) / self.scale)
+    return np.where(missing, self.fillvalue, data).astype(self.dtype)
   # }}}
 
 def autodetectformat(filename):
-- 
2.43.0


From ebb5c71256175c1c95a5416b86fb47f768248692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 20/27] fix: reading back yearless time axes with a negative
 reference day

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 6bc5fb6..fa97952 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -404,7 +404,7 @@ def decode_cf (dataset, ignore=[]):
       year, month, day, hour, minute, second = 0,1,1,0,0,0
       if len(date) > 0: year, date = re.match("(\d+)-?(.*)", date).groups()
       if len(date) > 0: month, date = re.match("(\d+)-?(.*)", date).groups()
-      if len(date) > 0: day, date = re.match("(\d+)\s*(.*)", date).groups()
+      if len(date) > 0: day, date = re.match("(-?\d+)\s*(.*)", date).groups()  # (yearless days may be negative)
       if date.startswith('T'): date = date[1:]
       if len(date) > 0: hour, date = re.match("(\d+):?(.*)", date).groups()
       if len(date) > 0: minute, date = re.match("(\d+):?(.*)", date).groups()
-- 
2.43.0


From 8aa81fef223fc19ca2b04ec3cead3480f501b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 21/27] fix: alleq compared axes with their subclasses
 differently from ==

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 7cf28a0..ec73547 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -212,7 +212,7 @@ class Axis(Var):
   # {{{
     ''' alleq(self, *others) - returns True if self matches with all axes in others.'''
     for other in others:
-      if not self.__eq__(other): return False
+      if not self == other: return False
     return True
   # }}}
 
-- 
2.43.0


From 618cc701b901f0f62a6771312e562c7353f49892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 22/27] fix: renaming of index axes

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index ec73547..41d1df6 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -569,7 +569,7 @@ class Axis(Var):
     for k,v in self.auxatts.items(): aux[k] = v
     for k,v in self.auxarrays.items(): aux[k] = v
 
-    return type(self)(values=self.values, name=name, atts=self.atts, **aux)
+    return type(self)(self.values, name=name, atts=self.atts, **aux)
 # }}}
 
   # Check if a given string is a meaningful alias to the axis
-- 
2.43.0


From f628c7755b087d5e494f77ca30dedbfe2928d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 23/27] fix: comparison of auxiliary arrays (not symmetric, and
 axes with missing values or text differed from their copies)

---
 pygeode/axis.py     | 39 +++++++++++++++++++++++++--------------
 pygeode/timeaxis.py |  4 ++--
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 41d1df6..f61a83e 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -674,7 +674,22 @@ def _values_match (a, b, rtol):
     dv = dv[dv > 0]
     if len(dv) > 0: atol = min(atol, rtol * dv.min())
   with np.errstate(invalid='ignore'):
-    return bool(np.all((a == b) | (np.abs(a - b) <= np.maximum(atol, rtol * np.maximum(np.abs(a), np.abs(b))))))
+    return bool(np.all((a == b) | ((a != a) & (b != b)) | (np.abs(a - b) <= np.maximum(atol, rtol * np.maximum(np.abs(a), np.abs(b))))))
+# }}}
+
+def _aux_match (a, b):
+# {{{
+  ''' Whether two auxiliary arrays agree: numbers to within a relative
+      tolerance, anything else exactly. Symmetric with respect to a and b;
+      missing values agree with each other.'''
+  import numpy as np
+  a, b = np.asarray(a), np.asarray(b)
+  if a.shape != b.shape: return False
+  if not ('f' in a.dtype.kind + b.dtype.kind and a.dtype.kind in 'fiub' and b.dtype.kind in 'fiub'):
+    return bool(np.all(a == b))
+  with np.errstate(invalid='ignore'):
+    close = np.abs(a - b) <= 1e-8 + 1e-5 * np.maximum(np.abs(a), np.abs(b))
+  return bool(np.all((a == b) | close | (np.isnan(a) & np.isnan(b))))
 # }}}
 
 def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name = False, rtol = 'max'):
@@ -739,7 +754,6 @@ def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name =
     return False
 
   # Check the values
-  from numpy import allclose
   if rtol == 'max':
     rtol = max(_value_rtol(ax1), _value_rtol(ax2))
   elif rtol == 'min':
@@ -762,14 +776,9 @@ def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name =
 
     # Check values of associated arrays
     for fname in ax1.auxarrays.keys():
-      try:
-        if not allclose(ax1.auxarrays[fname], ax2.auxarrays[fname]):
-    #     print('false by mismatched auxarray "%s":'%fname)
-          return False
-      except TypeError:
-        # For non-numeric types, the above allclose will fail. Check for exact equality.
-        if not all(ax1.auxarrays[fname] == ax2.auxarrays[fname]):
-          return False
+      if not _aux_match(ax1.auxarrays[fname], ax2.auxarrays[fname]):
+  #     print('false by mismatched auxarray "%s":'%fname)
+        return False
 
   return True
 # }}}
@@ -1126,9 +1135,8 @@ class Hybrid (ZAxis):
   def __eq__ (self, other):
   # {{{
     if not ZAxis.__eq__(self, other): return False
-    from numpy import allclose
-    if not allclose(self.A, other.A): return False
-    if not allclose(self.B, other.B): return False
+    if not _aux_match(self.A, other.A): return False
+    if not _aux_match(self.B, other.B): return False
     return True
   # }}}
 
@@ -1280,11 +1288,14 @@ class NonCoordinateAxis(Axis):
   # matching to a subclass of Axis.
   def __eq__ (self, other):
 # {{{
+    import numpy as np
     # For simplicity, expect them to be the same type of axis.
     if type(self) != type(other): return False
     if set(self.auxarrays.keys()) != set(other.auxarrays.keys()): return False
     for k in list(self.auxarrays.keys()):
-      if list(self.auxarrays[k]) != list(other.auxarrays[k]): return False
+      a, b = np.asarray(self.auxarrays[k]), np.asarray(other.auxarrays[k])
+      # (missing values agree with each other)
+      if a.shape != b.shape or not np.all((a == b) | ((a != a) & (b != b))): return False
     return True
 # }}}
 
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 70c3a9c..926bac6 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -143,7 +143,7 @@ class Time (TAxis):
   # Comparison
   def __eq__ (self, other):
   # {{{
-    import numpy as np
+    from pygeode.axis import _aux_match
     if self is other: return True
     if type(self) != type(other): return False
     # Different fields?
@@ -153,7 +153,7 @@ class Time (TAxis):
     assert len(self.auxarrays) > 0, "how is date formed?"
     # Different field values?
     for k,f in self.auxarrays.items():
-      if not np.allclose(f,other.auxarrays[k]): return False
+      if not _aux_match(f, other.auxarrays[k]): return False
 
     return True
   # }}}
-- 
2.43.0


From 76590ba3ae2535d35509d3c17a0e5b77dbafa428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 24/27] fix: smoothing and derivatives of integer data were
 truncated

---
 pygeode/deriv.py  | 22 +++++++++++++++-------
 pygeode/smooth.py |  7 +++++--
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pygeode/deriv.py b/pygeode/deriv.py
index 3ef8cc8..92acf0f 100644
--- a/pygeode/deriv.py
+++ b/pygeode/deriv.py
@@ -10,6 +10,7 @@ class DerivativeVar (Var):
     ''' __init__()'''
 
     from pygeode.var import Var
+    import numpy as np
 
     self.daxis = daxis = var.whichaxis(daxis)
     assert var.shape[daxis] > 1, "need at least two values along differentiation axis"
@@ -38,7 +39,10 @@ class DerivativeVar (Var):
     else:
       name = 'd(UnknownVar)'
 
-    Var.__init__(self, var.axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
+    # (differences of integers over distances are not integers)
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+
+    Var.__init__(self, var.axes, dtype, name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -88,8 +92,8 @@ class DerivativeVar (Var):
     getright = tuple([slice(None)]*daxis + [getright] + [slice(None)]*(self.naxes-daxis-1))
 
     # Finally, get the left & right values, and do the finite difference
-    L = allvalues[getleft]
-    R = allvalues[getright]
+    L = np.asarray(allvalues[getleft], self.dtype)
+    R = np.asarray(allvalues[getright], self.dtype)
     La = allaxis[getleft]
     Ra = allaxis[getright]
 
@@ -107,6 +111,7 @@ class SecondDerivativeVar (Var):
     ''' __init__()'''
 
     from pygeode.var import Var
+    import numpy as np
 
     self.daxis = daxis = var.whichaxis(daxis)
     assert var.shape[daxis] > 1, "need at least two values along differentiation axis"
@@ -132,7 +137,10 @@ class SecondDerivativeVar (Var):
     else:
       name = 'd2(UnknownVar)'
 
-    Var.__init__(self, var.axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
+    # (differences of integers over distances are not integers)
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+
+    Var.__init__(self, var.axes, dtype, name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -174,9 +182,9 @@ class SecondDerivativeVar (Var):
     getright  = tuple([slice(None)]*daxis + [getright] + [slice(None)]*(self.naxes-daxis-1))
 
     # Finally, get the left & right values, and do the finite difference
-    L = allvalues[getleft]
-    C = allvalues[getcentre]
-    R = allvalues[getright]
+    L = np.asarray(allvalues[getleft], self.dtype)
+    C = np.asarray(allvalues[getcentre], self.dtype)
+    R = np.asarray(allvalues[getright], self.dtype)
     La = allaxis[getleft]
     Ca = allaxis[getcentre]
     Ra = allaxis[getright]
diff --git a/pygeode/smooth.py b/pygeode/smooth.py
index c0c70dc..0409e70 100644
--- a/pygeode/smooth.py
+++ b/pygeode/smooth.py
@@ -40,7 +40,10 @@ class SmoothVar (Var):
       except TypeError:
         self._convolve = sg.convolve
 
-    Var.__init__(self, var.axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # (averages of integers are not integers)
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+
+    Var.__init__(self, var.axes, dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -78,7 +81,7 @@ class SmoothVar (Var):
 
     for outsl, (indata,) in loopover(self.var, aview, preserve=[saxis], pbar=pbar):
       src_shape = indata.shape[:saxis] + (src_saxislen,) + indata.shape[saxis+1:]
-      src = np.zeros(src_shape, self.var.dtype)
+      src = np.zeros(src_shape, self.dtype)
       sslo[saxis] = slice(mleft_len, src_saxislen - mright_len)
       src[tuple(sslo)] = indata
 
-- 
2.43.0


From 6a81fcd385a65e213a1e983de3dc7944a0d343f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 25/27] fix: reading integer data from many files

---
 pygeode/formats/multifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index dd7dcf6..ed5e816 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -341,7 +341,7 @@ class Multifile_Var (Var):
     from warnings import warn
 
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('nan')
+    if np.issubdtype(self.dtype, np.inexact): out[()] = float('nan')
 
     # Get the times
     itime = view.index(Time)
-- 
2.43.0


From 5a0663ac7109eb48dfe565d7fe8e6fba3b5f74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 26/27] fix: conversion of network-order data on Python 3
 (every call raised, and decoding overflowed int)

---
 pygeode/formats/opendap.c | 41 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/pygeode/formats/opendap.c b/pygeode/formats/opendap.c
index 1355761..11f062b 100644
--- a/pygeode/formats/opendap.c
+++ b/pygeode/formats/opendap.c
@@ -1,3 +1,4 @@
+#define PY_SSIZE_T_CLEAN
 #include <Python.h>
 #include <numpy/arrayobject.h>
 #include <stdlib.h>
@@ -14,7 +15,7 @@ int str2int8 (unsigned char *str, unsigned char *x, int n) {
 int str2int32 (unsigned char *str, unsigned int *x, int n) {
   for (int i = 0; i < n; i++) {
     int j = 4*i;
-    x[i] = str[j] * (1<<24) + str[j+1] * (1<<16) + str[j+2] * (1<<8) + str[j+3];
+    x[i] = ((unsigned int)str[j]<<24) + (str[j+1]<<16) + (str[j+2]<<8) + str[j+3];
   }
   return 0;
 }
@@ -22,7 +23,7 @@ int str2int32 (unsigned char *str, unsigned int *x, int n) {
 int str2int64 (unsigned char *str, unsigned long long *x, int n) {
   for (int i = 0; i < n; i++) {
     int j = 8*i;
-    x[i] = str[j] * (1LL<<56) + str[j+1] * (1LL<<48) + str[j+2] * (1LL<<40) + str[j+3] * (1LL<<32)
+    x[i] = ((unsigned long long)str[j]<<56) + str[j+1] * (1LL<<48) + str[j+2] * (1LL<<40) + str[j+3] * (1LL<<32)
          + str[j+4] * (1LL<<24) + str[j+5] * (1LL<<16) + str[j+6] * (1LL<<8) + str[j+7];
   }
   return 0;
@@ -34,18 +35,18 @@ int str2float32 (unsigned char *str, float *f, int n) {
   unsigned int *x = (unsigned int*)f;
   for (int i = 0; i < n; i++) {
     int j = 4*i;
-    x[i] = str[j] * (1<<24) + str[j+1] * (1<<16) + str[j+2] * (1<<8) + str[j+3];
+    x[i] = ((unsigned int)str[j]<<24) + (str[j+1]<<16) + (str[j+2]<<8) + str[j+3];
   }
   return 0;
 }
 
 int str2float64 (unsigned char *str, double *f, int n) {
   assert (sizeof(double) == 8);
-  assert (sizeof(unsigned long long) == 4);
+  assert (sizeof(unsigned long long) == 8);
   unsigned long long *x = (unsigned long long*)f;
   for (int i = 0; i < n; i++) {
     int j = 8*i;
-    x[i] = str[j] * (1LL<<56) + str[j+1] * (1LL<<48) + str[j+2] * (1LL<<40) + str[j+3] * (1LL<<32)
+    x[i] = ((unsigned long long)str[j]<<56) + str[j+1] * (1LL<<48) + str[j+2] * (1LL<<40) + str[j+3] * (1LL<<32)
          + str[j+4] * (1LL<<24) + str[j+5] * (1LL<<16) + str[j+6] * (1LL<<8) + str[j+7];
   }
   return 0;
@@ -119,10 +120,10 @@ int float64toStr (double *f, char *str, int n) {
 
 static PyObject *opendapcore_str2int8 (PyObject *self, PyObject *args) {
   unsigned char *str;
-  int slen;
+  Py_ssize_t slen;
   npy_intp n;
   PyArrayObject *x;
-  if (!PyArg_ParseTuple(args, "s#", &str, &slen)) return NULL;
+  if (!PyArg_ParseTuple(args, "y#", &str, &slen)) return NULL;
   n = slen;
   x = (PyArrayObject*)PyArray_SimpleNew(1,&n,NPY_INT8);
 
@@ -134,10 +135,10 @@ static PyObject *opendapcore_str2int8 (PyObject *self, PyObject *args) {
 
 static PyObject *opendapcore_str2int32 (PyObject *self, PyObject *args) {
   unsigned char *str;
-  int slen;
+  Py_ssize_t slen;
   npy_intp n;
   PyArrayObject *x;
-  if (!PyArg_ParseTuple(args, "s#", &str, &slen)) return NULL;
+  if (!PyArg_ParseTuple(args, "y#", &str, &slen)) return NULL;
   n = slen/4;
   x = (PyArrayObject*)PyArray_SimpleNew(1,&n,NPY_INT32);
 
@@ -149,10 +150,10 @@ static PyObject *opendapcore_str2int32 (PyObject *self, PyObject *args) {
 
 static PyObject *opendapcore_str2int64 (PyObject *self, PyObject *args) {
   unsigned char *str;
-  int slen;
+  Py_ssize_t slen;
   npy_intp n;
   PyArrayObject *x;
-  if (!PyArg_ParseTuple(args, "s#", &str, &slen)) return NULL;
+  if (!PyArg_ParseTuple(args, "y#", &str, &slen)) return NULL;
   n = slen/8;
   x = (PyArrayObject*)PyArray_SimpleNew(1,&n,NPY_INT64);
 
@@ -164,10 +165,10 @@ static PyObject *opendapcore_str2int64 (PyObject *self, PyObject *args) {
 
 static PyObject *opendapcore_str2float32 (PyObject *self, PyObject *args) {
   unsigned char *str;
-  int slen;
+  Py_ssize_t slen;
   npy_intp n;
   PyArrayObject *x;
-  if (!PyArg_ParseTuple(args, "s#", &str, &slen)) return NULL;
+  if (!PyArg_ParseTuple(args, "y#", &str, &slen)) return NULL;
   n = slen/4;
   x = (PyArrayObject*)PyArray_SimpleNew(1,&n,NPY_FLOAT32);
 
@@ -179,10 +180,10 @@ static PyObject *opendapcore_str2float32 (PyObject *self, PyObject *args) {
 
 static PyObject *opendapcore_str2float64 (PyObject *self, PyObject *args) {
   unsigned char *str;
-  int slen;
+  Py_ssize_t slen;
   npy_intp n;
   PyArrayObject *x;
-  if (!PyArg_ParseTuple(args, "s#", &str, &slen)) return NULL;
+  if (!PyArg_ParseTuple(args, "y#", &str, &slen)) return NULL;
   n = slen/8;
   assert (n*8 == slen);
   x = (PyArrayObject*)PyArray_SimpleNew(1,&n,NPY_FLOAT64);
@@ -210,7 +211,7 @@ static PyObject *opendapcore_int8toStr (PyObject *self, PyObject *args) {
   // Clean up local objects
   Py_DECREF (x);
 
-  return Py_BuildValue("s#", str, n);
+  return Py_BuildValue("y#", str, (Py_ssize_t)n);
 }
 
 static PyObject *opendapcore_int32toStr (PyObject *self, PyObject *args) {
@@ -230,7 +231,7 @@ static PyObject *opendapcore_int32toStr (PyObject *self, PyObject *args) {
   // Clean up local objects
   Py_DECREF (x);
 
-  PyObject *ret = Py_BuildValue("s#", str, n*4);
+  PyObject *ret = Py_BuildValue("y#", str, (Py_ssize_t)n*4);
   free(str);
   return ret;
 }
@@ -252,7 +253,7 @@ static PyObject *opendapcore_int64toStr (PyObject *self, PyObject *args) {
   // Clean up local objects
   Py_DECREF (x);
 
-  PyObject *ret = Py_BuildValue("s#", str, n*8);
+  PyObject *ret = Py_BuildValue("y#", str, (Py_ssize_t)n*8);
   free(str);
   return ret;
 }
@@ -274,7 +275,7 @@ static PyObject *opendapcore_float32toStr (PyObject *self, PyObject *args) {
   // Clean up local objects
   Py_DECREF (x);
 
-  PyObject *ret = Py_BuildValue("s#", str, n*4);
+  PyObject *ret = Py_BuildValue("y#", str, (Py_ssize_t)n*4);
   free(str);
   return ret;
 }
@@ -296,7 +297,7 @@ static PyObject *opendapcore_float64toStr (PyObject *self, PyObject *args) {
   // Clean up local objects
   Py_DECREF (x);
 
-  PyObject *ret = Py_BuildValue("s#", str, n*8);
+  PyObject *ret = Py_BuildValue("y#", str, (Py_ssize_t)n*8);
   free(str);
   return ret;
 }
-- 
2.43.0


From 9ac2dff2ac2f325171f7cfdb2f73a8b4c0e15895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 27/27] fix: reading of GRIB files (handles on Python 3;
 constant fields, wide or negative scalings, levels above 255, extended
 headers, absent records)

---
 pygeode/formats/grib.c  | 68 +++++++++++++++++++++++++----------------
 pygeode/formats/grib.h  |  2 +-
 pygeode/formats/grib.py |  2 ++
 3 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/pygeode/formats/grib.c b/pygeode/formats/grib.c
index c05486b..7f58020 100644
--- a/pygeode/formats/grib.c
+++ b/pygeode/formats/grib.c
@@ -73,7 +73,7 @@ void print_IS (IS *x) {
 }
 
 int decode_PDS (PDS_raw *raw, PDS *pds) {
-  pds->length = (raw->length[0]<<16) + (raw->length[1]<<8) + raw->length[0];
+  pds->length = (raw->length[0]<<16) + (raw->length[1]<<8) + raw->length[2];
   if (pds->length == 0) {
 //    fprintf (stderr, "Warning: length of product definition section is unset.  Setting default of 28.\n");
     pds->length = 28;
@@ -99,8 +99,8 @@ int decode_PDS (PDS_raw *raw, PDS *pds) {
   pds->num_missing_avg = raw->num_missing_avg[0];
   pds->century       = raw->century[0];
   pds->subcenter_id  = raw->subcenter_id[0];
-  pds->scale_factor  = (raw->scale_factor[0]<<8) + raw->scale_factor[1];
-  if (raw->scale_factor[0] & 128) pds->scale_factor = (pds->scale_factor^0x8000) * -1;
+  pds->scale_factor  = ((raw->scale_factor[0]&127)<<8) + raw->scale_factor[1];
+  if (raw->scale_factor[0] & 128) pds->scale_factor *= -1;
 
   // Check that GDS is set and BMS is unset
   if ((!pds->gds_bms_flag) & 128) {
@@ -177,7 +177,6 @@ int encode_PDS (PDS *pds, PDS_raw *raw) {
   raw->century[0]       = pds->century;
   raw->subcenter_id[0]  = pds->subcenter_id;
   int scale_factor = pds->scale_factor;
-  if (scale_factor < 0) printf ("warning: untested negative scale factor\n");
   if (scale_factor < 0) scale_factor = (-scale_factor) ^ 0x8000;
   raw->scale_factor[0]  = scale_factor >> 8;
   raw->scale_factor[1]  = scale_factor;
@@ -446,6 +445,8 @@ int make_index (char *gribfile, char *indexfile) {
 
     read_IS(f,&is);
     read_PDS(f, &pds);
+    // Skip any extension of the section
+    if (pds.length > sizeof(PDS_raw)) fseeko (f, pds.length - sizeof(PDS_raw), SEEK_CUR);
     read_GDS(f, &gds);
     //fseeko (f, 4*gds.nv[0], SEEK_CUR);
     unsigned char pv[2][MAX_LEVELS][4];
@@ -500,7 +501,7 @@ int make_index (char *gribfile, char *indexfile) {
       v->nt++;
       t = alloca(sizeof(TimeLL));
       settime(t, time);
-      memset(t->offset, 0, sizeof(long long)*v->nz);
+      memset(t->offset, -1, sizeof(t->offset));  // -1 if there's no such record
       t->next = NULL;
       if (v->tlast != NULL) v->tlast->next = t;
       else v->t0 = t;
@@ -905,6 +906,7 @@ int read_data (FILE *f, Index *index, int v, int t, int z, double *out) {
 
   long long offset = index->var[v].offset[t][z];
 
+  if (offset < 0) return 1;  // no record for this time and level
   fseeko (f, offset, SEEK_SET);
   read_head(f);
   IS is;
@@ -915,6 +917,8 @@ int read_data (FILE *f, Index *index, int v, int t, int z, double *out) {
   read_IS(f,&is);
   read_PDS(f, &pds);
 //  print_PDS(&pds);
+  // Skip any extension of the section
+  if (pds.length > sizeof(PDS_raw)) fseeko (f, pds.length - sizeof(PDS_raw), SEEK_CUR);
   read_GDS(f, &gds);
   fseeko (f, 4*gds.nv, SEEK_CUR);
 
@@ -926,20 +930,26 @@ int read_data (FILE *f, Index *index, int v, int t, int z, double *out) {
 
   //printf ("D = %d,  e = %g, r = %g\n", pds.scale_factor, e, r);
 
-  int pack_size = bds.length - sizeof(BDS_raw);
+  int pack_size = bds.length - (int)sizeof(BDS_raw);
+  if (pack_size < 0 || bds.nbits > 32) return 1;
   // Allocate space for the temporary data
   unsigned char *packed = malloc(pack_size);
-  fread (packed, 1, pack_size, f);
+  pack_size = fread (packed, 1, pack_size, f);
   // Translate the packed values
-  char nbits = bds.nbits;
+  int nbits = bds.nbits;
 //  printf ("nbits: %d\n", nbits);
   for (int i = 0; i < size; i++) {
-    int p = (i*nbits)/8;
-    unsigned int d  = (packed[p]<<24) + (packed[p+1]<<16) + (packed[p+2]<<8) + packed[p+3];
-    char leftpad = (i*nbits)%8;
-    char rightpad = 32 - nbits - leftpad;
-    d <<= leftpad; d >>= leftpad;
+    // A value may be spread over 5 bytes (and has no bits at all in a constant field)
+    long long p = ((long long)i*nbits)/8;
+    int leftpad = ((long long)i*nbits)%8;
+    int rightpad = 40 - nbits - leftpad;
+    unsigned long long d = 0;
+    for (int k = 0; k < 5; k++) {
+      d <<= 8;
+      if (p+k < pack_size) d += packed[p+k];
+    }
     d >>= rightpad;
+    d &= (1ULL<<nbits) - 1;
     out[i] = (r + d * e) * D;
   }
   free (packed);
@@ -965,7 +975,10 @@ int read_data_loop (FILE *f, Index *index, int v, int nt, int *t,
   for (int ti = 0; ti < nt; ti++) {
     for (int zi = 0; zi < nz; zi++) {
       // Read the record
-      read_data (f, index, v, t[ti], z[zi], record);
+      if (read_data (f, index, v, t[ti], z[zi], record) != 0) {
+        free (record);
+        return 1;
+      }
       // Put into the output
       for (int yi = 0; yi < ny; yi++) {
         int y_ = y[yi];
@@ -1017,7 +1030,7 @@ static PyObject *gribcore_get_varcode (PyObject *self, PyObject *args) {
   int v;
   int center, table, varid, level_type;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   int ret = get_varcode (index, v, &center, &table, &varid, &level_type);
   if (ret != 0) return NULL;
   return Py_BuildValue("(i,i,i,i)", center, table, varid, level_type);
@@ -1028,7 +1041,7 @@ static PyObject *gribcore_get_var_nt (PyObject *self, PyObject *args) {
   Index *index;
   int v, nt;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nt = get_var_nt (index, v);
   return Py_BuildValue("i", nt);
 }
@@ -1040,7 +1053,7 @@ static PyObject *gribcore_get_var_t (PyObject *self, PyObject *args) {
   npy_intp nt;
   PyArrayObject *y, *m, *d, *H, *M;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nt = get_var_nt (index, v);
   y = (PyArrayObject*)PyArray_SimpleNew(1,&nt,NPY_INT32);
   m = (PyArrayObject*)PyArray_SimpleNew(1,&nt,NPY_INT32);
@@ -1063,7 +1076,7 @@ static PyObject *gribcore_get_var_nz (PyObject *self, PyObject *args) {
   Index *index;
   int v, nz;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nz = get_var_nz (index, v);
   return Py_BuildValue("i", nz);
 }
@@ -1075,7 +1088,7 @@ static PyObject *gribcore_get_var_z (PyObject *self, PyObject *args) {
   npy_intp nz;
   PyArrayObject *l1, *l2;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nz = get_var_nz (index, v);
   l1 = (PyArrayObject*)PyArray_SimpleNew(1,&nz,NPY_INT32);
   l2 = (PyArrayObject*)PyArray_SimpleNew(1,&nz,NPY_INT32);
@@ -1092,7 +1105,7 @@ static PyObject *gribcore_get_var_neta (PyObject *self, PyObject *args) {
   Index *index;
   int v, neta;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   neta = get_var_neta (index, v);
   return Py_BuildValue("i", neta);
 }
@@ -1104,7 +1117,7 @@ static PyObject *gribcore_get_var_eta (PyObject *self, PyObject *args) {
   npy_intp neta;
   PyArrayObject *a, *b;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   neta = get_var_neta (index, v);
   a = (PyArrayObject*)PyArray_SimpleNew(1,&neta,NPY_FLOAT32);
   b = (PyArrayObject*)PyArray_SimpleNew(1,&neta,NPY_FLOAT32);
@@ -1121,7 +1134,7 @@ static PyObject *gribcore_get_grid (PyObject *self, PyObject *args) {
   Index *index;
   int v, type, ni, nj, la1, lo1, la2, lo2;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   int ret = get_grid (index, v, &type, &ni, &nj, &la1, &lo1, &la2, &lo2);
   if (ret != 0) return NULL;
   return Py_BuildValue("(i,i,i,i,i,i,i)", type, ni, nj, la1, lo1, la2, lo2);
@@ -1131,7 +1144,7 @@ static PyObject *gribcore_get_nvars (PyObject *self, PyObject *args) {
   PyObject *index_obj;
   Index *index;
   if (!PyArg_ParseTuple(args, "O!", &PyCapsule_Type, &index_obj)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   int nvars = get_nvars(index);
   return Py_BuildValue("i", nvars);
 }
@@ -1144,13 +1157,16 @@ static PyObject *gribcore_read_data_loop (PyObject *self, PyObject *args) {
   PyArrayObject *t, *z, *y, *x, *out;
   // Assuming the arrays are of the right type and contiguous
   if (!PyArg_ParseTuple(args, "O!O!iiO!iO!iO!iO!O!", &PyCapsule_Type, &f_obj, &PyCapsule_Type, &index_obj, &v, &nt, &PyArray_Type, &t, &nz, &PyArray_Type, &z, &ny, &PyArray_Type, &y, &nx, &PyArray_Type, &x, &PyArray_Type, &out)) return NULL;
-  f = (FILE*)PyCapsule_New(f_obj,NULL,NULL);
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  f = (FILE*)PyCapsule_GetPointer(f_obj,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
 
   int ret = read_data_loop (f, index, v, nt, (int*)t->data, 
     nz, (int*)z->data, ny, (int*)y->data, nx, (int*)x->data,
     (double*)out->data);
-  if (ret != 0) return NULL;
+  if (ret != 0) {
+    PyErr_SetString (PyExc_IOError, "unable to read GRIB record");
+    return NULL;
+  }
   Py_RETURN_NONE;
 }
 
diff --git a/pygeode/formats/grib.h b/pygeode/formats/grib.h
index 2efb7f0..30bb6e0 100644
--- a/pygeode/formats/grib.h
+++ b/pygeode/formats/grib.h
@@ -71,7 +71,7 @@ typedef struct {
   unsigned char num_missing_avg;
   unsigned char century;
   unsigned char subcenter_id;
-  unsigned short scale_factor;
+  signed short scale_factor;
 } PDS;
 
 typedef struct {
diff --git a/pygeode/formats/grib.py b/pygeode/formats/grib.py
index 9d741b8..82bec7a 100644
--- a/pygeode/formats/grib.py
+++ b/pygeode/formats/grib.py
@@ -38,6 +38,8 @@ class GribVar(Var):
     #TODO: check for z *range*, handle that as a separate axis type??
     lev1, lev2 = lib.get_var_z(file.index, v)
     print("levels:", lev1, lev2)
+    # A single level is stored in two octets
+    if level_type not in layer_level_types: lev2 = lev1*256 + lev2
     zorder = lev2.tolist()
     lev2.sort()
 
-- 
2.43.0

