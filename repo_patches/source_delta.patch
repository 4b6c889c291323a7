From cffbe0ea7f30996bb77881561985814f046c2a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 01/61] fix: do not read past the end of regular data when
 output is longer than data

---
 cddm/_core_nb.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 4cac182..8cae9e6 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -338,7 +338,7 @@ def _cross_corr_complex_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -346,7 +346,7 @@ def _cross_corr_regular(x,y,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:],C[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_complex_regular(x,y,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -355,13 +355,13 @@ def _cross_corr_complex_regular(x,y,dummy,out):
 
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[i:],x[0:n], out[i:i+1])
 
 @nb.guvectorize([(C[:],C[:],C[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_complex_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],x[i:], out[i:i+1])
 
@@ -452,7 +452,7 @@ def _cross_diff_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_diff_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(y[i:],x[0:n], out[i:i+1])
         if i > 0:
@@ -469,7 +469,7 @@ def _auto_diff_vec(f,t,dummy,out):
             
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_diff_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(x[i:],x[0:n], out[i:i+1])
             
@@ -518,7 +518,7 @@ def _cross_sum_complex(f,t1,t2,dummy,out):
                                 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -533,7 +533,7 @@ def _cross_sum_regular(x,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular_inverted(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -551,7 +551,7 @@ def _cross_sum_complex_regular_inverted(x,dummy,out):
 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
-- 
2.43.0


From e8e7ab1b23f5fa48bdc7e7c44cae1d06a25a2a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 02/61] fix: FFT-based calculation with output longer than data
 wrapped around or failed

---
 cddm/_core_nb.py | 21 ++++++++++-----------
 cddm/core.py     | 10 ++++++++++
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 8cae9e6..e890aa0 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -573,13 +573,12 @@ def _cross_corr_fft_regular(x, y, dummy, out):
     out_length = len(dummy)
     if np.iscomplexobj(out):
         out_length = (out_length+1)//2
-    length = len(x)
-    tmp1 = np.empty((length*2), x.dtype)
-    tmp1[0:length] = x
-    tmp1[length:] = 0.
-    tmp2 = np.empty((length*2), y.dtype)
-    tmp2[0:length] = y
-    tmp2[length:] = 0.  
+    #zero pad, so that there is no wrap-around (also for output longer than data) 
+    length = max(len(x), out_length)
+    tmp1 = np.zeros((length*2), x.dtype)
+    tmp1[0:len(x)] = x
+    tmp2 = np.zeros((length*2), y.dtype)
+    tmp2[0:len(y)] = y
     x = _fft(tmp1, overwrite_x = True)
     y = _fft(tmp2, overwrite_x = True)
     
@@ -596,10 +595,10 @@ def _cross_corr_fft_regular(x, y, dummy, out):
 @nb.guvectorize([(C[:],F[:],F[:]),(C[:],C[:],C[:])],"(n),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_fft_regular(x, dummy, out):
     out_length = len(dummy)
-    length = len(x)
-    tmp = np.empty((length*2), x.dtype)
-    tmp[0:length] = x
-    tmp[length:] = 0.
+    #zero pad, so that there is no wrap-around (also for output longer than data) 
+    length = max(len(x), out_length)
+    tmp = np.zeros((length*2), x.dtype)
+    tmp[0:len(x)] = x
  
     x = _fft(tmp, overwrite_x = True)
     x = x*np.conj(x)
diff --git a/cddm/core.py b/cddm/core.py
index b31a43d..80f7b44 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -189,6 +189,12 @@ def _default_out(out, data_shape, n, calc_axis, dtype = FDTYPE, complex = False)
             raise ValueError("Wrong output dtype")
     return out
 
+def _padded_length(length, out, complex = False):
+    """Returns data length that prevents wrap-around in FFT-based calculation, 
+    also when the output is longer than the data."""
+    n = (out.shape[-1]+1)//2 if complex else out.shape[-1]
+    return max(length, n)
+
 def cross_correlate_fft(f1,f2, t1 = None, t2 = None, axis = 0, n = None, complex = False, aout = None):
     """Calculates cross-correlation function of two equal sized input arrays using FFT.
     
@@ -215,6 +221,7 @@ def cross_correlate_fft(f1,f2, t1 = None, t2 = None, axis = 0, n = None, complex
         return _cross_corr_fft_regular(f1,f2,out, out)
     else:
         #random spaced data algorithm
+        length = _padded_length(length, out, complex)
         return _cross_corr_fft(f1,f2,t1,t2,length,out, out) 
     
 def auto_correlate_fft(f, t = None, axis = 0, n = None, complex = False, aout = None):
@@ -242,6 +249,7 @@ def auto_correlate_fft(f, t = None, axis = 0, n = None, complex = False, aout =
         return _auto_corr_fft_regular(f,out, out) 
     else:
         #random spaced data algorithm
+        length = _padded_length(length, out)
         return _auto_corr_fft(f,t,length,out, out)
     
 def _is_aligned(data, axis, align):
@@ -848,6 +856,7 @@ def cross_sum_fft(f, t, t_other = None, axis = 0, n = None, complex = False, tim
     else: 
         if time_inversion:
             t, t_other = -t, -t_other
+        length = _padded_length(length, out, complex)
         #we need conjugate version of FFT of zero-padded ones at t_other times
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t_other, y)
@@ -944,6 +953,7 @@ def auto_sum_fft(f, t, axis = 0, n = None, aout = None):
     if t is None: 
         raise ValueError("Not implemented for regular spaced data! Use auto_sum instead.")
     else:        
+        length = _padded_length(length, out)
         #we need conjugate version of FFT of zero-padded ones at t_other times
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t, y)
-- 
2.43.0


From 9656ebdaab1e86c417032bb04ef807df5d6af791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 03/61] fix: sum functions dropped imaginary part of
 single-precision complex data

---
 cddm/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 80f7b44..9164cc7 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -86,9 +86,9 @@ def _inspect_cross_arguments(f1,f2,t1,t2,axis,n, aout, dtype = CDTYPE, aout_full
     f2 = np.asarray(f2, dtype)
     
     if f1.dtype not in (FDTYPE, CDTYPE) and dtype is None:
-        f1 = np.asarray(f1, FDTYPE)
+        f1 = np.asarray(f1, CDTYPE if np.iscomplexobj(f1) else FDTYPE)
     if f2.dtype not in (FDTYPE, CDTYPE) and dtype is None:
-        f2 = np.asarray(f2, FDTYPE)
+        f2 = np.asarray(f2, CDTYPE if np.iscomplexobj(f2) else FDTYPE)
     
     ndim = f1.ndim
 
@@ -147,7 +147,7 @@ def _inspect_auto_arguments(f,t,axis,n,aout, dtype = CDTYPE):
                 
     f = np.asarray(f, dtype)
     if f.dtype not in (FDTYPE, CDTYPE) and dtype is None:
-        f = np.asarray(f, FDTYPE)
+        f = np.asarray(f, CDTYPE if np.iscomplexobj(f) else FDTYPE)
         
     ndim = f.ndim
 
-- 
2.43.0


From e1b2c2cde3e70ef08b050a05312ca41da0e0bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 04/61] fix: weighted normalization without scaling combined
 scaled data with unscaled delta

---
 cddm/norm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 6363f8e..28fb621 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -573,12 +573,13 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         
         weighted_data = base_data
         
+        #data is always scaled in weight_from_data, so delta must be scaled too
         if norm & NORM_SUBTRACTED:
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask, scale = True)
         else:
             bg1 = bg1 / (scale_factor(variance,mask))**0.5 if scale == True else bg1
             bg2 = bg2 / (scale_factor(variance,mask))**0.5  if scale == True else bg2
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask, scale = True)
         
         if weight is None:
             weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)
-- 
2.43.0


From 8431f1c852a0de12d1520d7f859889a98902d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 05/61] fix: weighted normalization ignored the output array

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 28fb621..27506a2 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -620,9 +620,9 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         enable_prints(level) 
         
         if ret_weight == True:
-            return weighted_sum(comp_data, base_data,weight), weight
+            return weighted_sum(comp_data, base_data,weight, out), weight
         else:
-            return weighted_sum(comp_data, base_data,weight)
+            return weighted_sum(comp_data, base_data,weight, out)
         
     count = data[1]
     
-- 
2.43.0


From 6eaacd5e70763ec341314f3f1866d15070079327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 06/61] fix: reshape_input mixed frame elements with the time
 axis unless it was the first or the last of three

---
 cddm/core.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 9164cc7..59356e5 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -315,19 +315,23 @@ def reshape_input(f, axis = 0, thread_divisor = None, mask = None):
     """
     
     f = np.asarray(f)
-    axis = list(range(f.ndim))[axis]#make it a positive integer
+    pos_axis = list(range(f.ndim))[axis]#make it a positive integer
 
     if mask is not None:
-        if axis != 0:
+        if pos_axis != 0:
             raise ValueError("Mask can only be applied when axis = 0")
         f = f[:,mask]   
         
     shape = list(f.shape)
-    n = shape.pop(axis)
+    n = shape.pop(pos_axis)
     force_2d = True if mask is None else False
-    new_shape = list(thread_frame_shape(shape, thread_divisor, force_2d))
-    new_shape.insert(axis, n)
-    return f.reshape(new_shape), tuple(shape)
+    new_shape = tuple(thread_frame_shape(shape, thread_divisor, force_2d))
+    #frame must not be mixed with the calculation axis, so only reshape when this is the first or the last axis.
+    if pos_axis == f.ndim - 1 and pos_axis != 0:
+        f = np.moveaxis(f.reshape(new_shape + (n,)), -1, axis)
+    else:
+        f = np.moveaxis(np.moveaxis(f, pos_axis, 0).reshape((n,) + new_shape), 0, axis)
+    return f, tuple(shape)
 
 def reshape_frame(frame, shape, mask = None): 
     x = frame.reshape(shape)
-- 
2.43.0


From 0667a012ee05a7e812c9065e28a109a20f1ba1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 07/61] fix: reshape_output of 1D frames, of masked data with
 thread_divisor or 1D mask and of multilevel normalized data

---
 cddm/core.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 59356e5..f3ae11e 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -374,9 +374,9 @@ def reshape_output(data, shape = None, mask = None):
     def _reshape(i,x):
         #if not count data
         if i != 1 and x is not None: 
-            x = x.reshape(shape)
+            x = x.reshape(lead + shape + (x.shape[-1],))
             if mask is not None:
-                out = np.empty(x.shape[0:-mask.ndim] + mask.shape + (x.shape[-1],), x.dtype)
+                out = np.empty(lead + mask.shape + (x.shape[-1],), x.dtype)
                 out[...,mask,:] = x
                 out[...,np.logical_not(mask),:] = np.nan
                 return out
@@ -387,16 +387,22 @@ def reshape_output(data, shape = None, mask = None):
     if shape is None:
         if mask is None:
             raise ValueError("Either `mask` or `shape` must be defined")
-        shape = mask.shape
-    if mask is None:
-        shape = data[0].shape[0:-(len(shape)+1)] + tuple(shape) + (data[0].shape[-1],) 
-    else:
-        shape = data[0].shape[0:-mask.ndim] + tuple(shape) + (data[0].shape[-1],) 
+        shape = (np.count_nonzero(mask),)
+    shape = tuple(shape)
     #normalized data 
     if isinstance(data, np.ndarray):
+        #leading axes (of multilevel data) are those that are not part of the frame
+        size, nlead = reduce((lambda x, y: x * y), shape, 1), data.ndim - 1
+        while nlead > 0 and reduce((lambda x, y: x * y), data.shape[nlead:-1], 1) != size:
+            nlead -= 1
+        lead = data.shape[0:nlead]
+        if reduce((lambda x, y: x * y), data.shape[0:-1], 1) == size:
+            lead = ()
         return _reshape(0,data) 
     #raw tuple data
     else: 
+        #multilevel data has additional axes in the count data
+        lead = data[1].shape[0:-1]
         return tuple((_reshape(i,x) for (i,x) in enumerate(data)))
 
 def cross_correlate(f1,f2, t1 = None, t2 = None, axis = 0, n = None, align = False, complex = False, aout = None):
-- 
2.43.0


From 8cc4c5a4e38fc75a1fac5ea938bffc263f39ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 08/61] fix: iterative complex auto-correlation lost the pairs
 between chunks

---
 cddm/multitau.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index ccdb347..8f04306 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -930,7 +930,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                     #     m1_fast += out[3] /2
                     #     m1_fast += out[4] /2          
                         
-                    out = ccorr(_sliced_data(fdata1,0,fstart1,fstop1),_sliced_data(fdata1,0,fstart2,fstop2),t1[istart1:istop1],t1[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                    #earlier chunk goes first, so that the delays of complex data are positive
+                    out = ccorr(_sliced_data(fdata1,0,fstart2,fstop2),_sliced_data(fdata1,0,fstart1,fstop1),t1[istart2:istop2],t1[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
                         
                     out_fast += out[0][...,0:n_fast]
                     count_fast += out[1][...,0:n_fast]
@@ -1004,7 +1005,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                             #     m1_slow[j-1] += out[3] /2
                             #     m1_slow[j-1] += out[4] /2
                             
-                            out = ccorr(_sliced_data(fdata1,j,fstart1,fstop1),_sliced_data(fdata1,j,fstart2,fstop2),t_slow[istart1:istop1],t_slow[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                            #earlier chunk goes first, so that the delays of complex data are positive
+                            out = ccorr(_sliced_data(fdata1,j,fstart2,fstop2),_sliced_data(fdata1,j,fstart1,fstop1),t_slow[istart2:istop2],t_slow[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
 
 
                             out_slow[j-1] += out[0][...,0:n_slow]
-- 
2.43.0


From b1fff2faa4411d8e6eb07f6f24f9bc15eb6a88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 09/61] fix: iterative multitau with BINNING_FIRST selected the
 second element of each pair

---
 cddm/multitau.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 8f04306..32c4d16 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -433,6 +433,7 @@ def _add_data1(i,x, out, binning = True, r = None):
                     x = x if r > 0.5 else out[j-1,index_top-1,...]
                     out[j,index_low,...] = x                    
             else:
+                x = out[j-1,...,index_top-1,:] if OPTIMIZE_LAYOUT else out[j-1,index_top-1,...]
                 if OPTIMIZE_LAYOUT:
                     out[j,...,index_low,:] = x
                 else:
@@ -484,6 +485,8 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2                    
             else:
+                x1 = out1[j-1,...,index_top-1,:] if OPTIMIZE_LAYOUT else out1[j-1,index_top-1,...]
+                x2 = out2[j-1,...,index_top-1,:] if OPTIMIZE_LAYOUT else out2[j-1,index_top-1,...]
                 if OPTIMIZE_LAYOUT:
                     out1[j,...,index_low,:] = x1
                     out2[j,...,index_low,:] = x2
-- 
2.43.0


From d9eaa7e52b6f5aa3de005c286a330069291becf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 10/61] fix: in-memory multitau with BINNING_CHOOSE selected
 different frames for each camera and for the squares

---
 cddm/multitau.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 32c4d16..3c031a5 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -271,11 +271,12 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     #do multi-tau caluclation
 
     for i in range(nlevel):
-        f1 = _bin(f1,axis, new_axis)
-        f2 = _bin(f2,axis, new_axis) if cross else None
+        r = np.random.rand() #the same random choice must be used for all data
+        f1 = _bin(f1,axis, new_axis, r = r)
+        f2 = _bin(f2,axis, new_axis, r = r) if cross else None
         if (norm & NORM_STRUCTURED) and correlate:
-            f1s = _bin(f1s,axis, new_axis)
-            f2s = _bin(f2s,axis, new_axis) if cross else None
+            f1s = _bin(f1s,axis, new_axis, r = r)
+            f2s = _bin(f2s,axis, new_axis, r = r) if cross else None
         axis = new_axis
                 
         _out =  tuple(((d[i] if d is not None else None) for d in data_slow))
-- 
2.43.0


From a1fd28698c2fc85f0608e315ff6efcbf76f2d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 11/61] fix: in-memory multitau with complex output allocated
 slow data of wrong size

---
 cddm/multitau.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 3c031a5..61dec75 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -232,16 +232,16 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     if axis == -1:
         new_axis = -1
         slow_shape = (nlevel,) + k_shape + (n_slow,)
-        slow_shape = (nlevel,) + k_shape + (n_slow*2+1,) if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape + (_full_size(n_slow),) if complex and cross else slow_shape
     else:
         new_axis = axis
         slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow,) + k_shape[-1:] 
-        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow*2+1,) + k_shape[-1:] if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape[0:-1] + (_full_size(n_slow),) + k_shape[-1:] if complex and cross else slow_shape
 
     out_slow = np.zeros(slow_shape, CDTYPE) if complex else np.zeros(slow_shape, FDTYPE) 
     out_slow = _transpose_data(out_slow, new_axis) 
         
-    count_slow = np.zeros((nlevel, n_slow,),IDTYPE)
+    count_slow = np.zeros((nlevel, _full_size(n_slow),),IDTYPE) if complex and cross else np.zeros((nlevel, n_slow,),IDTYPE)
     m1, m2, sq = None, None, None
  
     if (norm & NORM_STRUCTURED) and correlate == True:
-- 
2.43.0


From 2781d892227b11a25d4c34aa2f8db746f5dba8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 12/61] fix: default norm of iacorr was invalid

---
 cddm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/core.py b/cddm/core.py
index f3ae11e..3cd4e5b 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -1412,7 +1412,7 @@ def iccorr(data, t1 = None, t2 = None, n = None, norm = None, method = "corr", c
     else:
         return data
 
-def iacorr(data, t = None, n = None, norm = 0, method = "corr", count = None,
+def iacorr(data, t = None, n = None, norm = None, method = "corr", count = None,
                 chunk_size = None, thread_divisor = None,  
                 auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
     """Iterative version of :func:`ccorr`
-- 
2.43.0


From 86402840483a4981adfa525b581291a10a565e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 13/61] fix: iterative multitau with nlevel above the number of
 streamed levels returned zeros

---
 cddm/multitau.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 61dec75..c0adf54 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -759,9 +759,10 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     if nlevel is None:
         nlevel = n_decades_max -1
     else:
-        n_decades = min(nlevel + 1, n_decades_max)
-        if n_decades < 1:
+        nlevel = int(nlevel)
+        if nlevel < 0:
             raise ValueError("Invalid nlevel")
+        n_decades = min(nlevel + 1, n_decades)
         nlevel = min(int(nlevel),n_decades_max -1)
               
     t_slow = np.arange(nframes)
-- 
2.43.0


From 6e9694ce141019ae654bee19b007a96f5e4020d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 14/61] fix: iccorr and iacorr failed with scalar times and
 with the default output length

---
 cddm/multitau.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index c0adf54..18a4782 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -539,10 +539,14 @@ def _inspect_t1_t2_count(t1,t2,count,data):
         t1 = np.arange(int(count))
     else:
         t1 = np.asarray(t1)  
+        if t1.ndim == 0: #scalar defines the length
+            t1 = np.arange(int(t1))
     if count is None:
         count = len(t1)
     count = int(count)
     t2 = np.asarray(t2) if t2 is not None else t1 
+    if t2.ndim == 0:
+        t2 = np.arange(int(t2))
     if count > len(t1):
         raise ValueError("`count` is too large for given time arrays")
     if len(t1) != len(t2):
@@ -730,6 +734,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     t1,t2, count = _inspect_t1_t2_count(t1,t2,count,data)
     correlate = False if method == "diff" else True
         
+    if level_size is None:
+        level_size = count if chunk_size is None else chunk_size
     level_size = int(level_size)
    
     chunk_size = _default_chunk_size(chunk_size,count,level_size)
-- 
2.43.0


From b8e32e455465e7256ddc2b50acfba6fd4da82738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 15/61] fix: iterative auto-difference of more than one chunk
 failed with UnboundLocalError

---
 cddm/multitau.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 18a4782..0ffd07f 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -819,6 +819,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             else:
                 out_fast, count_fast, m1_fast, m2_fast = data_fast         
                 out_slow, count_slow, m1_slow, m2_slow = data_slow
+                sq_fast, sq_slow = None, None
                 
             fdata1, fdata2 = _init_data_f(n_decades, half_chunk_size, shape, cross = cross)
             
-- 
2.43.0


From aef3920f0c2f37f9dfceec0acc6296159a4238a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 16/61] fix: iterative analysis of a single frame from an empty
 iterator failed with UnboundLocalError

---
 cddm/multitau.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 0ffd07f..133329e 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -773,7 +773,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
               
     t_slow = np.arange(nframes)
           
-    i = 0 #initialize to zero, in case iterator is empty
+    i = -1 #no frames yet, in case iterator is empty
     
     for i,d in enumerate(data):
         if i == nframes:
-- 
2.43.0


From f2b93d3a3b9776012fcb1d0c3adc95d722f2e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 17/61] fix: reshape_input and in-memory multitau failed if the
 axis was not valid after reshaping

---
 cddm/core.py     | 11 +++++------
 cddm/multitau.py |  1 +
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 3cd4e5b..2c59af6 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -326,12 +326,11 @@ def reshape_input(f, axis = 0, thread_divisor = None, mask = None):
     n = shape.pop(pos_axis)
     force_2d = True if mask is None else False
     new_shape = tuple(thread_frame_shape(shape, thread_divisor, force_2d))
-    #frame must not be mixed with the calculation axis, so only reshape when this is the first or the last axis.
-    if pos_axis == f.ndim - 1 and pos_axis != 0:
-        f = np.moveaxis(f.reshape(new_shape + (n,)), -1, axis)
-    else:
-        f = np.moveaxis(np.moveaxis(f, pos_axis, 0).reshape((n,) + new_shape), 0, axis)
-    return f, tuple(shape)
+    #frame must not be mixed with the calculation axis, so reshape with this axis first.
+    f = np.moveaxis(f, pos_axis, 0).reshape((n,) + new_shape)
+    #number of dimensions may have changed, so make sure we have a valid axis.
+    axis = max(-f.ndim, min(axis, f.ndim -1))
+    return np.moveaxis(f, 0, axis), tuple(shape)
 
 def reshape_frame(frame, shape, mask = None): 
     x = frame.reshape(shape)
diff --git a/cddm/multitau.py b/cddm/multitau.py
index 133329e..a517fe2 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -181,6 +181,7 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     f1, kshape = reshape_input(f1, axis = axis, thread_divisor = thread_divisor, mask = mask)
     if cross:
         f2, kshape = reshape_input(f2, axis = axis, thread_divisor = thread_divisor, mask = mask)
+    axis = max(-f1.ndim, min(axis, f1.ndim -1)) #number of dimensions may have changed
 
     new_axis = -2 if f1.ndim > 1 else -1    
 
-- 
2.43.0


From 63a065afd0f48a5c7c4e3841a6c4e682dcf5a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 18/61] fix: fold_data of negative delays was off by one
 element

---
 cddm/norm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 27506a2..32fbbcc 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -856,10 +856,9 @@ def fold_data(data, mode = 0):
             out[...,1:] += np.conj(data[...,-1:-n:-1])
             out[...,1:] /= 2
     else:
-        #take all negative values and largest positive value
-        out = data[...,-1:-n-1:-1].copy()
-        #first one is zero, so overwrite the largest positive value.
-        out[...,0] = data[...,0]
+        #zero delay first, followed by all negative values
+        out = data[...,0:n].copy()
+        out[...,1:] = data[...,-1:-n:-1]
         
     return out
 
-- 
2.43.0


From 8fcf7272fa9c98ef72c417c9023f0cef35102b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 19/61] fix: shift_data and equalize_data did not remove the
 translation phase or flipped the sign of data

---
 cddm/norm.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 32fbbcc..35a96a1 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -762,6 +762,15 @@ def take_data(data, mask):
         
     return tuple((_mask(i,d) for (i,d) in enumerate(data)))
 
+def _mean_phase(pos, neg, zero):
+    """Returns phase factor with the phase in the middle of the phases of `pos` and `neg`.
+    These are first rotated (in the opposite direction) by the phase of zero delay data.
+    """
+    shift = np.angle(zero)
+    phase = np.angle(pos * np.exp(-1j*shift))
+    delta = np.angle(neg * np.exp(1j*shift) * np.exp(-1j*phase))
+    return np.exp(1j * (phase + delta/2.))
+
 def shift_data(data):
     """Phase shifts input complex correlation data so that out[...,0] is real,
     and that phase of out[...,i] equals the phase of out[...,-i].conj(),
@@ -780,11 +789,7 @@ def shift_data(data):
     pos = data[...,1:n]
     neg = np.conj(data[...,-1:-n:-1])
     
-    pos_phase = np.arctan2(pos.imag, pos.real)
-    neg_phase = np.arctan2(neg.imag, neg.real)
-    
-    phase = (pos_phase - neg_phase)/2.
-    exp_phase = np.exp(1j*phase)
+    exp_phase = _mean_phase(pos, neg, data[...,0:1])
 
     out[...,1:n] = np.abs(pos) * exp_phase
     out[...,-1:-n:-1] = np.abs(neg) * np.conj(exp_phase)
@@ -809,7 +814,7 @@ def equalize_data(data):
     pos = data[...,1:n]
     neg = np.conj(data[...,-1:-n:-1])
     
-    tmp = np.sqrt(pos * neg)
+    tmp = np.sqrt(np.abs(pos) * np.abs(neg)) * _mean_phase(pos, neg, data[...,0:1])
     
     out[...,1:n] = tmp
     out[...,-1:-n:-1] = np.conj(tmp)
-- 
2.43.0


From fca8c859aabbc0704c5617e14c373c87636db971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 20/61] fix: multilevel_count was misaligned when the kernel
 was longer than the data

---
 cddm/multitau.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index a517fe2..1c702ea 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1337,8 +1337,10 @@ def multilevel_count(count, level_size, binning = BINNING_MEAN):
             kernel = np.array([1.]) #np.array([1./2**l])
         kernel2 = kernel**2
         
-        data = np.convolve(kernel2, count2, "same")
-        norm = np.convolve(kernel, count , "same")
+        #same size as count, also when count is shorter than the kernel
+        start = len(kernel)//2
+        data = np.convolve(kernel2, count2)[start:start + len(count)]
+        norm = np.convolve(kernel, count)[start:start + len(count)]
         data_sliced = data[0::2**l][0:size]
         norm_sliced = norm[0::2**l][0:size]
         n_sliced = data_sliced.shape[-1]
-- 
2.43.0


From 78113121218d2cd32feabb4a72a2afe5ad40271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 21/61] fix: number of levels of the multitau count functions
 did not match the multitau data

---
 cddm/multitau.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 1c702ea..dc2cde3 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1352,6 +1352,13 @@ def multilevel_count(count, level_size, binning = BINNING_MEAN):
         
     return out
 
+def _available_levels(count, level_size):
+    """Returns number of levels computed by the multitau algorithm"""
+    nlevel = 0
+    while count//(2**(nlevel + 1)) >= level_size:
+        nlevel += 1
+    return nlevel
+
 def ccorr_multi_count(count, period = 1, level_size = 16, binning = True):
     """Returns an effective count data for the equivalent multilevel cross-correlation
     calculation. 
@@ -1381,7 +1388,7 @@ def ccorr_multi_count(count, period = 1, level_size = 16, binning = True):
         c = 2**(np.arange(n))
         count_slow = count_slow/c[:,None]
     
-    return count_fast, count_slow[1:]
+    return count_fast, count_slow[1:_available_levels(count, level_size)+1]
 
 def acorr_multi_count(count, period = 1, level_size = 16, binning = True):
     """Returns an effective count data for the equivalent multilevel auto-correlation
@@ -1414,7 +1421,7 @@ def acorr_multi_count(count, period = 1, level_size = 16, binning = True):
         c = 2**(np.arange(n))
         count_slow = count_slow/c[:,None]
         
-    return count_fast, count_slow[1:]
+    return count_fast, count_slow[1:_available_levels(count, level_size)+1]
 
 def _inspect_binning(binning):
     if binning not in (BINNING_CHOOSE, BINNING_MEAN, BINNING_FIRST):
-- 
2.43.0


From 059a8a139c1af62daeb6eea8ea1997b08b1178bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 22/61] fix: k_select of rfft2 data failed with IndexError

---
 cddm/map.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 6c2ada4..03985bc 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -309,14 +309,17 @@ def _k_select_complex(data, k, indexmap, kmap, computed_mask, masked_data):
     
 def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
     mask = (indexmap == int(round(k)))
-    ks = kmap[mask]
-    mask = as_rfft2_mask(mask)
     conj_mask = as_rfft2_conj(mask)
+    if mask.shape[-1] % 2 == 0:
+        #the last column is already there in the half space, it must not be taken twice
+        conj_mask[...,-1] = False
+    mask = as_rfft2_data(mask) | conj_mask
     
     if computed_mask is not None:
         mask = mask & computed_mask
         conj_mask = conj_mask & computed_mask
         
+    ks = as_rfft2_data(kmap)[mask]
     
     if masked_data == True:
         mask = mask[computed_mask]
-- 
2.43.0


From d8502486b7b90825c882ec49a7b7f96e40a53b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 23/61] fix: k_select with a scalar k raised TypeError

---
 cddm/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/map.py b/cddm/map.py
index 03985bc..92e2068 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -671,7 +671,7 @@ def k_select(data, angle , sector = 5, kstep = 1, k = None, shape = None, mask =
         return tuple((data for data in iterator if data is not None))       
     except TypeError:
         #not iterable
-        return _k_select(data, k, indexmap, kmap, mask)
+        return _k_select(data, k, indexmap, kmap, mask, masked_data)
     
 #
 #if __name__ == "__main__":
-- 
2.43.0


From 3aea745303103aea4fba008360833155eec13ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 24/61] fix: cropping of fft data to zero wave number failed

---
 cddm/fft.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 416dc6d..c63e898 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -150,7 +150,8 @@ def rfft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
+        if istop > 1:
+            out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
         return out
     
 def fft2_crop(x, kimax = None, kjmax = None):
@@ -180,9 +181,12 @@ def fft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:jstop] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
-        out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
-        out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
+        if istop > 1:
+            out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
+        if jstop > 1:
+            out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
+        if istop > 1 and jstop > 1:
+            out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
         return out
        
 def rfft2_video(video, kimax = None, kjmax = None, overwrite_x = False, extra = {}):
-- 
2.43.0


From 873fb91966c5624385a892d1153d2ac8a78f4265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 25/61] fix: threaded yielded None at the end of the video

---
 cddm/video.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index 265ba75..e0ec7d1 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -594,10 +594,9 @@ def threaded(video, queue_size = 0):
     while True:
         out = q.get()
         q.task_done()
-        yield out
-                
         if out is None:
             break
+        yield out
         
 def figure_title(name):
     """Generate a unique figure title"""
-- 
2.43.0


From 3b92a6bdc07698dbded11e62b03755a82d73e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 26/61] fix: asmemmaps failed if video was an iterable of known
 length

---
 cddm/video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index e0ec7d1..b09cb27 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -133,6 +133,8 @@ def asmemmaps(basename, video, count = None):
     print1("Writing to memmap...")
     print_progress(0, count)
     
+    video = iter(video)
+    
     frames = next(video)
     out = _empty_arrays(frames)
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
-- 
2.43.0


From 521c5a5b9f8e27e96b4ceb98cfef32d17793c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 27/61] fix: an error in the video silently truncated the
 output of threaded and play_threaded

---
 cddm/video.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index b09cb27..c97c88f 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -520,10 +520,15 @@ def play_threaded(video, fps = None):
     """
     q = Queue()
     
+    errors = []
+    
     def worker(video):
         try:
             for frames in video: 
                 q.put(frames)
+        except BaseException as e:
+            #re-raised in the main thread
+            errors.append(e)
         finally:
             q.put(None)
     
@@ -566,6 +571,9 @@ def play_threaded(video, fps = None):
             
     _FIGURES.clear()
     
+    if errors:
+        raise errors[0]
+    
 def threaded(video, queue_size = 0):
     """
     Returns a new iterator that runs the process in a background thread. 
@@ -584,10 +592,15 @@ def threaded(video, queue_size = 0):
     """
     q = Queue(queue_size)
     
+    errors = []
+    
     def worker(video):
         try:
             for frames in video: 
                 q.put(frames)
+        except BaseException as e:
+            #re-raised in the main thread
+            errors.append(e)
         finally:
             q.put(None)
     
@@ -600,6 +613,9 @@ def threaded(video, queue_size = 0):
             break
         yield out
         
+    if errors:
+        raise errors[0]
+        
 def figure_title(name):
     """Generate a unique figure title"""
     i = len(_FIGURES)+1
-- 
2.43.0


From d9d93c905c3825d9a947f5ab312cfc0394780439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 28/61] fix: callable velocity of brownian_walk was not
 multiplied with the time step

---
 cddm/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index ac3bae6..64cae1c 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -138,7 +138,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
 
         if callable(velocity):
             _velocity = velocity(x)
-            _velocity = np.asarray(_velocity, FDTYPE)
+            _velocity = np.asarray(_velocity, FDTYPE)*dt
         if callable(delta):
             _delta = delta(x)
             _scale = _delta*np.sqrt(dt)
-- 
2.43.0


From e0c37e72486a8bf58ca890b54ea789792c9bbd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 29/61] fix: callable delta of brownian_walk failed or was
 applied to coordinates instead of particles

---
 cddm/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index 64cae1c..5d1a072 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -143,6 +143,9 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
             _delta = delta(x)
             _scale = _delta*np.sqrt(dt)
             _scale = np.asarray(_scale, FDTYPE)
+            if _scale.ndim == 1:
+                #one value per particle, for both coordinates
+                _scale = _scale[:,None]
             
         x = make_step(x,_scale, _velocity) 
         x = mirror(x,x1,x2)
-- 
2.43.0


From fc14a812671e227fe61400c8a189fd022890a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 30/61] fix: particles_video lost frames if one camera was
 triggered more than once before the other

---
 cddm/sim.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 5d1a072..cbee4fa 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -234,8 +234,9 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
     height, width = shape
     
         
-    out1 = None
-    out2 = None
+    #frames that wait for the frame of the other camera
+    out1 = []
+    out2 = []
     
     t1 = list(t1)
     t2 = list(t2) if t2 is not None else None
@@ -265,20 +266,18 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
         if i in t1[:1]:
             t1.pop(0)
             data1 = coordinate_transform(data, shape, offset = offset, rotation = rotation)
-            out1 = get_frame(data1)   
+            out1.append(get_frame(data1))
             
         if t2 is not None and i in t2[:1]:
             t2.pop(0)
-            out2 = get_frame(data)  
+            out2.append(get_frame(data))
             
         if t2 is not None:
-            if out1 is not None and out2 is not None:
-                yield out1, out2
-                out1, out2 = None, None
+            if out1 and out2:
+                yield out1.pop(0), out2.pop(0)
         else:
-            if out1 is not None:
-                yield out1,
-                out1 = None     
+            if out1:
+                yield out1.pop(0),
 
 def data_trigger(data, indices):
     """A generator that selects data from an iterator 
-- 
2.43.0


From 8b6d118f27a4520a3e6fd3253262974ba511ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 31/61] fix: data_trigger failed if there were no indices

---
 cddm/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index cbee4fa..78af7d5 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -294,6 +294,9 @@ def data_trigger(data, indices):
     
     t = list(reversed(sorted(set(indices))))  #make all indices unique and sorted. 
     
+    if not t:
+        return
+    
     ii = t.pop()
     
     for i,d in enumerate(data):
-- 
2.43.0


From 84220915b044e203adb77351a6024c9b47c7d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 32/61] fix: draw_psf wrote out of bounds if the point spread
 function was larger than the frame

---
 cddm/_sim_nb.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 8be99d4..0f514b9 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -143,16 +143,12 @@ def draw_psf(im, points, intensity, sigma):
                 #i = i0 % height
                 
                 # slightly faster implementation of flooring
-                if j0 >= width:
-                    j= j0 - width
-                elif j0 < 0:
-                    j = width + j0
+                if j0 >= width or j0 < 0:
+                    j = j0 % width
                 else:
                     j = j0
-                if i0>= height:
-                    i = i0 - height
-                elif i0 < 0:
-                    i = height + i0
+                if i0 >= height or i0 < 0:
+                    i = i0 % height
                 else:
                     i = i0
                 im[i,j] = im[i,j] + p
-- 
2.43.0


From c8809e2cb74f1c188b571e43e960dbcecab7b1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 33/61] fix: adc returned uint16 for 8bit

---
 cddm/_sim_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 0f514b9..a40b307 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -83,7 +83,7 @@ def shot_noise_poisson(photon_noise, readout_noise):
         out += np.random.poisson(readout_noise)
     return out
 
-@nb.vectorize([U16(F,F,F, U16), U8(F,F,F, U8)],  cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH) 
+@nb.vectorize([U8(F,F,F, U8), U16(F,F,F, U16)],  cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH) 
 def adc_clean(frame, saturation, black_level, maxv):
     out = (frame - black_level)/saturation * maxv
     if out < 0:
-- 
2.43.0


From e080672a7f990b60c50062442cbd7dc798958cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 34/61] fix: random_time_count of zero delay was not the number
 of frames

---
 cddm/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 78af7d5..f55b680 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -347,7 +347,7 @@ def random_time_count(nframes, n = 32):
     """Returns estimated count for single-camera random triggering scheme"""
     count = (np.arange(nframes*n+1)[::-1])/n/n
     count[0:n] = np.arange(n*1.)/(n) * count[0:n]
-    count[0] = nframes * n
+    count[0] = nframes
     return count
  
 def create_random_times1(nframes,n = 32):
-- 
2.43.0


From c6efae521885b09fca783b8658ff44062847ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 35/61] fix: first element of increasing was not set

---
 cddm/_core_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index e890aa0..cc784f0 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -223,7 +223,7 @@ def decreasing(array, out):
 def increasing(array,out):
     """Performs increasing filter. Each next element must be greater or equal"""
     n = len(array)
-    for i in range(1,n):
+    for i in range(n):
         if i == 0:
             out[0] = array[0]
         else:
-- 
2.43.0


From 3a02621b3d6b130b64a3216890e8e580872915c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 36/61] fix: log_interpolate mixed linear and log coordinates
 if the first two nodes are 0 and more than 1

---
 cddm/_core_nb.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index cc784f0..ce4541c 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -102,15 +102,12 @@ def _log_interpolate(x_new, x,y, out):
     """Linear interpolation in semilogx space."""
     assert len(x) >= 2
     for i in range(len(x_new)):
-        xi = x_new[i]
-        log = False
-        if xi > 1:
-            xi = np.log(xi)
-            log = True
         for j in range(1,len(x)):
+            xi = x_new[i]
             x0 = x[j-1]
             x1 = x[j]            
-            if x0 >= 1 and log == True:
+            if x0 >= 1 and xi > 1:
+                xi = np.log(xi)
                 x0 = np.log(x0)
                 x1 = np.log(x1)
             if x_new[i] <= x[j]:
@@ -120,7 +117,7 @@ def _log_interpolate(x_new, x,y, out):
                 out[i] = (xi - x0) * deltay / deltax +  y[j-1]
                 break
         #extrapolate forward for data points outside of the domain
-        if xi > x1:            
+        if x_new[i] > x[-1]:            
             deltay = y[-1] - y[-2]
             deltax = x1 - x0
             out[i] = (xi - x0) * deltay/deltax +  y[-2]    
-- 
2.43.0


From 5f99ad1d56494189bb568d825093cc101b87291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 37/61] fix: viewers took the elements at the Nyquist frequency
 of even-sized frames twice

---
 cddm/viewer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 60f9979..bfb59e4 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -4,7 +4,7 @@ from __future__ import absolute_import, print_function, division
 import numpy as np
 import matplotlib.pyplot as plt
 from matplotlib.widgets import Slider, Button, RadioButtons, CheckButtons, AxesWidget
-from cddm.map import fft2_kangle, fft2_sector_indexmap, as_fft2_shape, from_rfft2_data, as_rfft2_mask, as_rfft2_conj
+from cddm.map import fft2_kangle, fft2_sector_indexmap, as_fft2_shape, from_rfft2_data, as_rfft2_data, as_rfft2_conj
 from cddm.multitau import normalize_multi, log_merge, log_average
 from cddm.norm import normalize, _default_norm_from_data, _method_from_data, NORM_STRUCTURED, NORM_SUBTRACTED, NORM_WEIGHTED, NORM_STANDARD, NORM_COMPENSATED, fold_data
 from cddm.print_tools import disable_prints, enable_prints
@@ -747,8 +747,11 @@ class DataViewer(object):
         self.indexmap = fft2_sector_indexmap(self.kmap, self.anglemap, self.angle, self.sector, self.kstep)
         self.mask = (self.indexmap == int(self.k)) 
         self.graph_mask = self.mask
-        self.half_mask = as_rfft2_mask(self.mask)
         self.conj_mask = as_rfft2_conj(self.mask)
+        if self.mask.shape[-1] % 2 == 0:
+            #the last column is already there in the half space, it must not be taken twice
+            self.conj_mask[...,-1] = False
+        self.half_mask = as_rfft2_data(self.mask) | self.conj_mask
         
         if self.computed_mask is not None:
             if self.kshape == (self.kisize, self.kjsize):
-- 
2.43.0


From 86c42d0e0741e9dd527c6c47b33dea2bfecf9ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 38/61] fix: get_k of the viewers failed for masked data

---
 cddm/viewer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index bfb59e4..2b4965d 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -717,7 +717,7 @@ class DataViewer(object):
         """Returns average k value of current data."""
         if self.mask is None:
             raise ValueError("Mask not specified, you must first set mask.")
-        return self.kmap[self.mask].mean()
+        return as_rfft2_data(self.kmap)[self.k_mask].mean()
     
     def set_mask(self, k, angle = 0, sector = 5, kstep = 1):
         """Sets k-mask for averaging,
@@ -752,6 +752,8 @@ class DataViewer(object):
             #the last column is already there in the half space, it must not be taken twice
             self.conj_mask[...,-1] = False
         self.half_mask = as_rfft2_data(self.mask) | self.conj_mask
+        #elements of the half space that are averaged
+        self.k_mask = self.half_mask if self.computed_mask is None else self.half_mask & self.computed_mask
         
         if self.computed_mask is not None:
             if self.kshape == (self.kisize, self.kjsize):
-- 
2.43.0


From 5febe48c2bb955b9bafbdc0dac4780180cbc2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 39/61] fix: set_mask of the viewers used the k map of the
 previous data if shape of the data changed

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 2b4965d..af2fd48 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -742,7 +742,7 @@ class DataViewer(object):
         self.angle = angle
         self.kstep = kstep
         self.sector = sector
-        if self.kmap is None:
+        if self.kmap is None or self.kmap.shape != as_fft2_shape(self.kisize, self.kjsize, shape = self.shape):
             self._init_map()
         self.indexmap = fft2_sector_indexmap(self.kmap, self.anglemap, self.angle, self.sector, self.kstep)
         self.mask = (self.indexmap == int(self.k)) 
-- 
2.43.0


From 42e0bb71284cc04e060eb1d89ea34d5c11bfbced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 40/61] fix: viewers folded complex data also with fold = False

---
 cddm/viewer.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index af2fd48..9489eeb 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -499,9 +499,9 @@ class CorrArrayViewer(DataArrayViewer):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self.fold or (self.fold is None and (isinstance(self.background, tuple) or isinstance(self.variance, tuple))):
                 data = fold_data(data)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.size is not None:
@@ -562,9 +562,9 @@ class MultitauArrayViewer(CorrArrayViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self.fold or (self.fold is None and (isinstance(self.background, tuple) or isinstance(self.variance, tuple))):
                 data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.semilogx == True:
@@ -922,9 +922,9 @@ class CorrViewer(DataViewer):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self.fold or (self.fold is None and (isinstance(self.background, tuple) or isinstance(self.variance, tuple))):
                 data = fold_data(data)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.size is not None:
@@ -1006,9 +1006,9 @@ class MultitauViewer(CorrViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
+            if self.fold or (self.fold is None and (isinstance(self.background, tuple) or isinstance(self.variance, tuple))):
                 data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
+            elif self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
 
         if self.semilogx == True:
-- 
2.43.0


From d72dd8d133ef0a16448059e80260d8c6c8fd7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 41/61] fix: viewers switched from standard to weighted
 normalization

---
 cddm/viewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 9489eeb..6449a09 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -448,7 +448,7 @@ class CorrArrayViewer(DataArrayViewer):
         #self.rax = plt.axes([0.48, 0.55, 0.15, 0.3])
         self.cax = plt.axes([0.44, 0.72, 0.2, 0.15])
         
-        self.active = [bool(self.norm & NORM_STRUCTURED),bool(self.norm & NORM_SUBTRACTED), bool((self.norm & NORM_WEIGHTED == NORM_WEIGHTED)) , bool((self.norm & NORM_COMPENSATED) == NORM_COMPENSATED)  ]
+        self.active = [bool(self.norm & NORM_STRUCTURED),bool(self.norm & NORM_SUBTRACTED), bool((self.norm & NORM_WEIGHTED) == NORM_WEIGHTED) , bool((self.norm & NORM_COMPENSATED) == NORM_COMPENSATED)  ]
         
         self.check = CheckButtons(self.cax, ("structured", "subtracted", "weighted", "compensated"), self.active)
         
@@ -858,7 +858,7 @@ class CorrViewer(DataViewer):
         #self.rax = plt.axes([0.48, 0.55, 0.15, 0.3])
         self.cax = plt.axes([0.44, 0.72, 0.2, 0.15])
         
-        self.active = [bool(self.norm & NORM_STRUCTURED),bool(self.norm & NORM_SUBTRACTED), bool((self.norm & NORM_WEIGHTED == NORM_WEIGHTED)) , bool((self.norm & NORM_COMPENSATED) == NORM_COMPENSATED)  ]
+        self.active = [bool(self.norm & NORM_STRUCTURED),bool(self.norm & NORM_SUBTRACTED), bool((self.norm & NORM_WEIGHTED) == NORM_WEIGHTED) , bool((self.norm & NORM_COMPENSATED) == NORM_COMPENSATED)  ]
         
         self.check = CheckButtons(self.cax, ("structured", "subtracted", "weighted", "compensated"), self.active)
         
-- 
2.43.0


From df9c3f7e7dc58ff7a0549ad905a83a14d017bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 42/61] fix: array viewers failed if axes did not start with
 zero

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 6449a09..ca49fe0 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -313,7 +313,7 @@ class DataArrayViewer(object):
         self.selectorindex.on_clicked(update_mode)
 
     def set_indices(self,*vals):
-        indices = [slice(None)] * len(self.axes)
+        indices = [slice(None)] * (max(self.axes, default = -1) + 1)
         for i,ax in enumerate(self.axes):
             indices[ax] = vals[i]
         self.indices = tuple(indices)
-- 
2.43.0


From c28b3c802a998ec9c204138d183c507b81953191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 43/61] fix: plot of the viewers failed with matplotlib 3.7 or
 greater

---
 cddm/viewer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index ca49fe0..494e09d 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -206,6 +206,15 @@ class CustomRadioButtons(RadioButtons):
             The orientation of the buttons: 'vertical' (default), or 'horizontal'.
         Further parameters are passed on to `Legend`.
         """
+        if hasattr(RadioButtons, "set_radio_props"):
+            #matplotlib 3.7 or greater draws the buttons itself
+            kw = {"radio_props" : {"s" : size}}
+            try:
+                RadioButtons.__init__(self, ax, labels, active, activecolor, layout = orientation, **kw)
+            except TypeError:
+                #matplotlib 3.10 or less has no layouts
+                RadioButtons.__init__(self, ax, labels, active, activecolor, **kw)
+            return
         AxesWidget.__init__(self, ax)
         self.activecolor = activecolor
         axcolor = ax.get_facecolor()
-- 
2.43.0


From 0751c0cfb56f906be1d3e3a18fd0dd811c4bb2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 44/61] fix: enable_prints ignored the level, so nested
 disable/enable pairs enabled prints too early

---
 cddm/print_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 2275681..322b0e5 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -50,7 +50,7 @@ def disable_prints():
 def enable_prints(level = None):
     """Enable message printing. Returns previous verbosity level"""
     #set verbosity to positve value
-    value = cddm.conf.CDDMConfig.verbose if level is None else int(level)
-    cddm.conf.CDDMConfig.verbose =  abs(cddm.conf.CDDMConfig.verbose)
+    value = cddm.conf.CDDMConfig.verbose
+    cddm.conf.CDDMConfig.verbose = abs(value) if level is None else int(level)
     return value
                                         
\ No newline at end of file
-- 
2.43.0


From f458648bf8ab3c29893300078ec679b8ab848703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 45/61] fix: set_fft_threads accepted invalid number of threads

---
 cddm/conf.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cddm/conf.py b/cddm/conf.py
index 5517ab1..0617ae3 100644
--- a/cddm/conf.py
+++ b/cddm/conf.py
@@ -321,7 +321,10 @@ def set_rfft2lib(name = "numpy.fft"):
 def set_fft_threads(n):
     """Sets number of threads used in fft functions."""
     out = CDDMConfig.fft_threads
-    CDDMConfig.fft_threads = int(n)
+    n = int(n)
+    if n < 1:
+        raise ValueError("Number of threads must be a positive integer")
+    CDDMConfig.fft_threads = n
     try:
         import mkl
         mkl.set_num_threads(n)
@@ -348,7 +351,11 @@ set_fftlib(_readconfig(config.get, "fft", "fftlib", ("mkl_fft" if MKL_FFT_INSTAL
 set_rfft2lib(_readconfig(config.get, "fft", "rfft2lib", "numpy"))
 set_verbose(_readconfig(config.getint, "core", "verbose", 0))
 set_showlib(_readconfig(config.get, "core", "showlib", "cv2" if CV2_INSTALLED else "matplotlib"))
-set_fft_threads(_readconfig(config.getint, "fft", "nthreads", detect_number_of_cores()))
+
+try:
+    set_fft_threads(_readconfig(config.getint, "fft", "nthreads", detect_number_of_cores()))
+except ValueError:
+    set_fft_threads(detect_number_of_cores())
 
 try:
     set_numba_threads(_readconfig(config.getint, "numba", "nthreads", detect_number_of_cores()))
-- 
2.43.0


From 8163995ed5f4ee1afd0864eb5bce1d990da58c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 46/61] fix: number of fft threads set by the user was
 overridden when importing fft module

---
 cddm/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index c63e898..f6f2bfb 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -21,7 +21,7 @@ if PYFFTW_INSTALLED :
    import pyfftw.interfaces as fftw
    import pyfftw
    fftw.cache.enable()
-   pyfftw.config.NUM_THREADS = detect_number_of_cores()
+   pyfftw.config.NUM_THREADS = CDDMConfig.fft_threads
 
 def _fft(a, overwrite_x = False):
     libname = CDDMConfig["fftlib"]
-- 
2.43.0


From d93381c246a9117b2e0c7c6b281064d0207bbf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 47/61] fix: import failed if number of numba threads was
 greater than what numba allows

---
 cddm/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/conf.py b/cddm/conf.py
index 0617ae3..c7078c0 100644
--- a/cddm/conf.py
+++ b/cddm/conf.py
@@ -360,7 +360,7 @@ except ValueError:
 try:
     set_numba_threads(_readconfig(config.getint, "numba", "nthreads", detect_number_of_cores()))
 except ValueError:
-    set_numba_threads(numba.get_numba_threads())
+    set_numba_threads(numba.get_num_threads())
     pass
 
 F32 = numba.float32
-- 
2.43.0


From be1d30a0f9704d1c463bccbb07d2974baa40137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 48/61] fix: noise_delta was zero for integer variance data

---
 cddm/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 35a96a1..bf8d6b4 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -251,7 +251,7 @@ def noise_delta(variance, mask = None, scale = True):
         v1, v2 = variance
         delta = (np.asarray(v2) - np.asarray(v1))
         scale = (np.asarray(v1) + np.asarray(v2)) if scale == True else 2.
-        delta /= scale
+        delta = delta / scale
     except:
         #single data has delta = 0.
         scale = np.asarray(variance) 
-- 
2.43.0


From c72ef4303e3a9d9bf537cc0b5fd78533be1801bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 49/61] fix: message printing stayed disabled if computation
 failed

---
 cddm/multitau.py    |  4 +++-
 cddm/norm.py        |  3 ++-
 cddm/print_tools.py | 15 ++++++++++++++-
 cddm/viewer.py      |  4 +++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index dc2cde3..b4ad8b2 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -32,7 +32,7 @@ from cddm.core import _transpose_data, _inspect_cross_arguments,_default_norm,\
 import numpy as np
 
 from cddm.conf import CDTYPE, FDTYPE, IDTYPE
-from cddm.print_tools import print_progress,  print_frame_rate, enable_prints, disable_prints
+from cddm.print_tools import print_progress,  print_frame_rate, enable_prints, disable_prints, restore_prints
 from cddm.print_tools import print1, print2
 
 from cddm._core_nb import convolve, _calc_stats_vec,  _abs2
@@ -156,6 +156,7 @@ def _determine_lengths(length, n, period, nlevel):
     assert nlevel >= 0
     return n_fast, n_slow, nlevel
 
+@restore_prints
 def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, level_size = 2**4, 
                          binning = None,  nlevel = None, norm = None, method = None, align = False, thread_divisor = None, mask = None, complex = False):
     """Implements multiple tau algorithm for cross(auto)-correlation(difference) calculation.
@@ -1677,6 +1678,7 @@ def t_multilevel(shape, period = 1):
         x *= 2
     return out
         
+@restore_prints
 def normalize_multi(data, background = None, variance = None, norm = None,  mode = "corr", 
               scale = False, mask = None):
     """A multitau version of :func:`.core.normalize`.
diff --git a/cddm/norm.py b/cddm/norm.py
index bf8d6b4..fa67878 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -11,7 +11,7 @@ from __future__ import absolute_import, print_function, division
 
 import numpy as np
 from cddm.conf import CDTYPE, FDTYPE
-from cddm.print_tools import print1,print2, enable_prints, disable_prints
+from cddm.print_tools import print1,print2, enable_prints, disable_prints, restore_prints
 
 from cddm._core_nb import normalize_struct_compensated, normalize_corr_compensated,\
     normalize_corr_compensated_subtracted,\
@@ -486,6 +486,7 @@ def _inspect_scale(scale):
     except:
         raise ValueError("Invalid scale")
         
+@restore_prints
 def normalize(data, background = None, variance = None, norm = None,  mode = "corr", 
               scale = False, mask = None, weight = None, ret_weight = False, out = None):
     """Normalizes correlation (difference) data. Data must be data as returned
diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 322b0e5..6c861fd 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -6,6 +6,7 @@ verbosity levels 1 and 2 enable printing, 0 disables printing messages.
 from __future__ import absolute_import, print_function, division
 
 import time
+from functools import wraps
 import cddm.conf
 
 def print1(*args, **kwargs):
@@ -53,4 +54,16 @@ def enable_prints(level = None):
     value = cddm.conf.CDDMConfig.verbose
     cddm.conf.CDDMConfig.verbose = abs(value) if level is None else int(level)
     return value
-                                        
\ No newline at end of file
+
+def restore_prints(func):
+    """A decorator. Restores verbosity level if the decorated function, which
+    disables message printing, raises an exception."""
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        level = cddm.conf.CDDMConfig.verbose
+        try:
+            return func(*args, **kwargs)
+        except:
+            cddm.conf.CDDMConfig.verbose = level
+            raise
+    return wrapper
diff --git a/cddm/viewer.py b/cddm/viewer.py
index 494e09d..8c56e8a 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -7,7 +7,7 @@ from matplotlib.widgets import Slider, Button, RadioButtons, CheckButtons, AxesW
 from cddm.map import fft2_kangle, fft2_sector_indexmap, as_fft2_shape, from_rfft2_data, as_rfft2_data, as_rfft2_conj
 from cddm.multitau import normalize_multi, log_merge, log_average
 from cddm.norm import normalize, _default_norm_from_data, _method_from_data, NORM_STRUCTURED, NORM_SUBTRACTED, NORM_WEIGHTED, NORM_STANDARD, NORM_COMPENSATED, fold_data
-from cddm.print_tools import disable_prints, enable_prints
+from cddm.print_tools import disable_prints, enable_prints, restore_prints
 from cddm.decorators import doc_inherit, skip_runtime_error
 
 
@@ -372,6 +372,7 @@ class DataArrayViewer(object):
         return self._get_avg_data()
             
 
+    @restore_prints
     def plot(self):
         """Plots data. You must first call :meth:`.set_data` to set input data"""
         
@@ -778,6 +779,7 @@ class DataViewer(object):
         
         return self.mask.any()
         
+    @restore_prints
     def plot(self):
         """Plots data. You must first call :meth:`.set_data` to set input data"""
         
-- 
2.43.0


From 60a8475dac4d69c509cfe370bd0d90737f2d169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 50/61] fix: iterative functions printed a message also if
 messages were disabled

---
 cddm/multitau.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index b4ad8b2..bcf3d47 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1059,7 +1059,6 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                 yield tuple((reshape_output(o, original_shape,mask) for o in out))
     
     if i < nframes-1:
-        print (i)
         raise ValueError("Data iterator too short.") 
          
     verbosity = disable_prints()
-- 
2.43.0


From d776e39496c86305630c9756d2d64660237d777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 51/61] fix: reshape_output of multilevel normalized data of
 frames with a single element

---
 cddm/core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 2c59af6..6e54fc1 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -391,12 +391,10 @@ def reshape_output(data, shape = None, mask = None):
     #normalized data 
     if isinstance(data, np.ndarray):
         #leading axes (of multilevel data) are those that are not part of the frame
-        size, nlead = reduce((lambda x, y: x * y), shape, 1), data.ndim - 1
-        while nlead > 0 and reduce((lambda x, y: x * y), data.shape[nlead:-1], 1) != size:
-            nlead -= 1
+        size, nlead = reduce((lambda x, y: x * y), shape, 1), 0
+        while nlead < data.ndim - 1 and reduce((lambda x, y: x * y), data.shape[nlead:-1], 1) != size:
+            nlead += 1
         lead = data.shape[0:nlead]
-        if reduce((lambda x, y: x * y), data.shape[0:-1], 1) == size:
-            lead = ()
         return _reshape(0,data) 
     #raw tuple data
     else: 
-- 
2.43.0


From fa9960843cd596510c892d243b13bf038f0a97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 52/61] fix: irregular-spaced sums with fft failed in single
 precision

---
 cddm/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 6e54fc1..16512a4 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -867,7 +867,7 @@ def cross_sum_fft(f, t, t_other = None, axis = 0, n = None, complex = False, tim
         #we need conjugate version of FFT of zero-padded ones at t_other times
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t_other, y)
-        y = _fft(y, overwrite_x = True)
+        y = np.asarray(_fft(y, overwrite_x = True), CDTYPE) #numpy fft is always in double precision
         
         if complex == False:  
             return _cross_sum_fft(f,y,t,length,out, out)
@@ -964,7 +964,7 @@ def auto_sum_fft(f, t, axis = 0, n = None, aout = None):
         #we need conjugate version of FFT of zero-padded ones at t_other times
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t, y)
-        y = _fft(y, overwrite_x = True)
+        y = np.asarray(_fft(y, overwrite_x = True), CDTYPE) #numpy fft is always in double precision
 
         out0 = _cross_sum_fft(f,y,t,length,out0, out0)
 
-- 
2.43.0


From 4e294bfc89918688d49406023cac5daa56e0ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 53/61] fix: adc failed in single precision

---
 cddm/sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index f55b680..549ef25 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -449,6 +449,8 @@ def adc(frame,  saturation = 32768, black_level = 0, bit_depth = "14bit",
         Noissy image
     """
     readout_noise = np.array(readout_noise, FDTYPE)
+    saturation = np.array(saturation, FDTYPE)
+    black_level = np.array(black_level, FDTYPE)
     if noise_model == "gaussian":
         frame = shot_noise_gaussian(frame, readout_noise)
     elif noise_model == "poisson":
-- 
2.43.0


From e897f293e6aa366f972da9325c4fbefdeca36806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 54/61] fix: brownian walk, coordinate transform and form
 factor failed in single precision

---
 cddm/sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 549ef25..24ed045 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -63,7 +63,7 @@ def form_factor(window, sigma = 3, intensity = 5, navg = 10, dtype = "uint8", mo
     for i in range(navg):
         for j in range(navg):
             im = np.zeros(shape, dtype)
-            coord = (np.array(((i,j),)) * np.array(shape))*1.0 / navg
+            coord = np.array((np.array(((i,j),)) * np.array(shape))*1.0 / navg, FDTYPE)
             im = draw_psf(im, coord,np.array([intensity], dtype),np.array([sigma], FDTYPE))
             im = im*window
             if mode == 'rfft2':
@@ -129,7 +129,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
     if len(shape) != 2:
         raise ValueError("Wrong `shape`, must be 2D.")
     
-    x1, x2 = 0, np.asarray(shape,FDTYPE)
+    x1, x2 = np.asarray(0,FDTYPE), np.asarray(shape,FDTYPE)
     
     x = mirror(x,x1,x2) #make sure we start in the box
     
@@ -493,12 +493,12 @@ def coordinate_transform(data, shape, offset = None, rotation = None):
     if offset is None:
         offset = rotation_offset
     else:
-        offset = np.asarray(offset) +rotation_offset
+        offset = np.asarray(offset,FDTYPE) +rotation_offset
 
 
     data = _coordinate_rotate(data, rotation = rotation) + offset
         
-    x1, x2 = 0, np.asarray(shape,FDTYPE)
+    x1, x2 = np.asarray(0,FDTYPE), np.asarray(shape,FDTYPE)
     return mirror(data,x1,x2) #make sure we start in the box
         
 def _coordinate_rotate(data, rotation = None):
-- 
2.43.0


From 6d2fcd5e2a24fe3c205e8afaec1705037a975a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 55/61] fix: structured normalization failed in single
 precision if variance was in double precision

---
 cddm/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index fa67878..c175e29 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -440,7 +440,7 @@ def _corr2diff(data, variance, mask):
 
 def _variance2offset(variance, mask):
     #offset for norm == 2 type of normalization
-    return scale_factor(variance, mask)[..., None]
+    return np.asarray(scale_factor(variance, mask)[..., None], FDTYPE)
     
 
 def _inspect_background(background, norm, mask):
-- 
2.43.0


From baaa36052af154fd269a31e2108981588186af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 56/61] fix: weight_prime_from_data failed in single precision
 if data was in double precision

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index c175e29..1095a4d 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -334,8 +334,8 @@ def weight_prime_from_data(corr, bg1, bg2, delta = 0., scale_factor = 1., mode =
         Weight data for weighted sum calculation.
     """
     scale_factor = np.asarray(scale_factor, FDTYPE)
-    delta = np.asarray(delta)
-    bg1, bg2 = np.asarray(bg1), np.asarray(bg2)
+    delta = np.asarray(delta, FDTYPE)
+    bg1, bg2 = np.asarray(bg1, CDTYPE), np.asarray(bg2, CDTYPE)
     if mode == "corr":
         #make sure it is decreasing and clipped between 0 and 1
         if pre_filter == True:
-- 
2.43.0


From adc422dfa04385e0ea315465fd77f167e870e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 57/61] fix: structured iterative functions failed in single
 precision if data was in double precision

---
 cddm/multitau.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index bcf3d47..6c363a9 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -504,6 +504,7 @@ def _get_frames(d, cross = False, mask = None):
     """gets two frames (or one frame and NoneType) from dual (or single) frame data"""
     if cross == True:
         x1,x2 = d
+        x1,x2 = np.asarray(x1,CDTYPE),np.asarray(x2,CDTYPE)
         if mask is not None:
             x1,x2 = x1[mask],x2[mask]
     else:
@@ -511,6 +512,7 @@ def _get_frames(d, cross = False, mask = None):
             x1, = d
         else:
             x1 = d
+        x1 = np.asarray(x1,CDTYPE)
         if mask is not None:
             x1 = x1[mask]
         x2 = None
-- 
2.43.0


From 3517edad37f12108c84797c7501bfeea265a71bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 58/61] fix: overlapping particles were lost if drawn in
 parallel

---
 cddm/_sim_nb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index a40b307..4efe890 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -123,7 +123,7 @@ def adc_16bit(frame, scale, black_level):
     out = _adc_scale(frame, scale, black_level)
     return int(out*65536) if out < 1. else 65535
 
-@nb.jit([U8[:,:](U8[:,:],F[:,:],U8[:],F[:]),U16[:,:](U16[:,:],F[:,:],U16[:],F[:])], nopython = True, parallel = NUMBA_PARALLEL, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)                
+@nb.jit([U8[:,:](U8[:,:],F[:,:],U8[:],F[:]),U16[:,:](U16[:,:],F[:,:],U16[:],F[:])], nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)                
 def draw_psf(im, points, intensity, sigma):
     """Draws psf to image from a given points array"""
     assert points.shape[1] == 2
@@ -133,7 +133,8 @@ def draw_psf(im, points, intensity, sigma):
     height, width = im.shape
     
     size = int(round(3*sigma.max()))
-    for k in nb.prange(nparticles):
+    #particles may overlap, so they cannot be drawn in parallel (threads would overwrite each other's pixels)
+    for k in range(nparticles):
         h0,w0  = points[k,0], points[k,1]
         h,w = int(h0), int(w0) 
         for i0 in range(h-size,h+size+1):
-- 
2.43.0


From 2765c4598cb35ebea067954d9d876d5de5ca539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 59/61] fix: from_rfft2_data replaced the Nyquist column of
 even-sized frames with its mirror image, masks of the half space were not
 preserved

---
 cddm/map.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 92e2068..b5019da 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -529,26 +529,25 @@ def from_rfft2_data(a, shape = None, axes = (-2,-1)):
     slices_out[ax2] = slice(0,whalf)
     out[tuple(slices_out)] = a
     
-    #in case shape[1] is odd this is same as shape[1]//2 + 1, else it is lower by one
-    whalf2 = (neww + 1)//2
+    #negative frequencies only, the Nyquist column of even-sized frames is already set
+    whalf2 = neww - whalf
     
-    
-    #out[...,1:,whalf2:] = np.conj(a[...,-1:0:-1,-1:-whalf:-1])
+    #out[...,1:,whalf:] = np.conj(a[...,-1:0:-1,whalf2:0:-1])
     slices_in[ax1] = slice(-1,0,-1)
-    slices_in[ax2] = slice(-1,-whalf,-1)
+    slices_in[ax2] = slice(whalf2,0,-1)
     slices_out[ax1] = slice(1,None)
-    slices_out[ax2] = slice(whalf2,None)
+    slices_out[ax2] = slice(whalf,None)
     
     if np.iscomplexobj(a):
         out[tuple(slices_out)] = np.conj(a[tuple(slices_in)])
     else:
         out[tuple(slices_out)] = a[tuple(slices_in)]
     
-    #out[...,0,whalf2:] = np.conj(a[...,0,-1:-whalf:-1])
+    #out[...,0,whalf:] = np.conj(a[...,0,whalf2:0:-1])
     slices_in[ax1] = 0
-    slices_in[ax2] = slice(-1,-whalf,-1)
+    slices_in[ax2] = slice(whalf2,0,-1)
     slices_out[ax1] = 0
-    slices_out[ax2] = slice(whalf2,None)
+    slices_out[ax2] = slice(whalf,None)
     
     if np.iscomplexobj(a):
         out[tuple(slices_out)] = np.conj(a[tuple(slices_in)])
-- 
2.43.0


From 1529a13d469accd691dd762d7f31e532aa448a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 60/61] fix: fast forward of videos of less than 50 frames
 never advanced

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 8c56e8a..4f018bf 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -106,7 +106,7 @@ class VideoViewer(object):
         self.bfast =  Button(self.axfast, 'FF') 
         
         self.playing = False
-        self.step_fast = count/100
+        self.step_fast = max(count//100, 1) #slider moves in steps of 1
         self.step = 1
         
         def _play():
-- 
2.43.0


From c4db9009f9c55a58777e969838fa2cce0755be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 61/61] fix: wave vectors on the limit between two rings were
 lost due to rounding (sector index maps)

---
 cddm/map.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index b5019da..769ba78 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -89,8 +89,11 @@ def sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
     else:
         fmask = (anglemap < high) & (anglemap >= low)
     
+    #limits are shared, so that no k is lost in between rings due to rounding
+    limits = np.append(-kstep/2., ks + kstep/2.)
+    
     for i,k in enumerate(ks):
-        kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.))
+        kmask = (kmap <= limits[i+1]) &  (kmap > limits[i])
         mask = kmask & fmask
         out[mask] = i
     half = kmap.shape[0]//2+1
@@ -152,8 +155,11 @@ def fft2_sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
     else:
         fmask = (anglemap < high) & (anglemap >= low)
     
+    #limits are shared, so that no k is lost in between rings due to rounding
+    limits = np.append(-kstep/2., ks + kstep/2.)
+    
     for i,k in enumerate(ks):
-        kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.))
+        kmask = (kmap <= limits[i+1]) &  (kmap > limits[i])
         mask = kmask & fmask
         out[mask] = i
 
-- 
2.43.0

