From f8bcdefdc15833f4bcd018fc5ee7b658d0b24341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 01/50] fix: convert the comoving arguments when coercing mixed
 arguments to physical

_prepare_array_func_args converted the arguments that were already physical and
left the comoving ones untouched, so numpy functions of a comoving array and a
non-transformable physical array combined numbers of two frames.
---
 swiftsimio/_array_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6095783..35641c7 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -934,7 +934,7 @@ def _prepare_array_func_args(
     else:
         # mix of comoving and physical inputs
         if _default_cm:
-            for arg, cm in zip(args, cms):
+            for arg in [*args, *kwargs.values()]:
                 # None is not the same as False here:
                 if getattr(arg, "valid_transform", None) is False:
                     _default_cm = False
@@ -951,11 +951,11 @@ def _prepare_array_func_args(
             ret_cm = True
         else:
             args = [
-                arg.to_physical() if cm[0] and not cm[1] else arg
+                arg.to_physical() if cm[0] and cm[1] else arg
                 for arg, cm in zip(args, cms)
             ]
             kwargs = {
-                k: kwarg.to_physical() if kw_cms[k][0] and not kw_cms[k][1] else kwarg
+                k: kwarg.to_physical() if kw_cms[k][0] and kw_cms[k][1] else kwarg
                 for k, kwarg in kwargs.items()
             }
             ret_cm = False
-- 
2.43.0


From a31be02fd8058e0b255c254cde325ed0903d5fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 02/50] fix: np.var squares the cosmo_factor of its argument

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 35641c7..4fbb102 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1826,7 +1826,7 @@ def prod(  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf, out=out)
 
 
-implements(np.var)(_default_unary_wrapper(unyt_var, _preserve_cosmo_factor))
+implements(np.var)(_default_unary_wrapper(unyt_var, _square_cosmo_factor))
 implements(np.trace)(_default_unary_wrapper(unyt_trace, _preserve_cosmo_factor))
 implements(np.percentile)(
     _default_unary_wrapper(unyt_percentile, _preserve_cosmo_factor)
-- 
2.43.0


From a444f74c459a3c798fbfcc2d0e4947044f9c721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 03/50] fix: np.linalg.det of stacked matrices uses the matrix
 size as exponent

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4fbb102..afe741b 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1843,7 +1843,7 @@ implements(np.nanquantile)(
 @implements(np.linalg.det)
 def linalg_det(a):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a)
-    ret_cf = _power_cosmo_factor(helper_result["cfs"][0], None, power=a.shape[0])
+    ret_cf = _power_cosmo_factor(helper_result["cfs"][0], None, power=a.shape[-1])
     res = unyt_linalg_det(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
-- 
2.43.0


From 02ed81e8e6238b7c8111c55ca8f5ee6538fe19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 04/50] fix: Fourier transforms are linear and preserve the
 cosmo_factor

The transforms multiply their argument by dimensionless phases (their result has
the units of the argument), so the scale factor dependence is also unchanged.
---
 swiftsimio/_array_functions.py | 40 ++++++++++++----------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index afe741b..3e0fddb 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1685,35 +1685,23 @@ def block(arrays):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result_block, ret_cf)
 
 
-implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _reciprocal_cosmo_factor))
-implements(np.fft.fft2)(_default_unary_wrapper(unyt_fft_fft2, _reciprocal_cosmo_factor))
-implements(np.fft.fftn)(_default_unary_wrapper(unyt_fft_fftn, _reciprocal_cosmo_factor))
-implements(np.fft.hfft)(_default_unary_wrapper(unyt_fft_hfft, _reciprocal_cosmo_factor))
-implements(np.fft.rfft)(_default_unary_wrapper(unyt_fft_rfft, _reciprocal_cosmo_factor))
-implements(np.fft.rfft2)(
-    _default_unary_wrapper(unyt_fft_rfft2, _reciprocal_cosmo_factor)
-)
-implements(np.fft.rfftn)(
-    _default_unary_wrapper(unyt_fft_rfftn, _reciprocal_cosmo_factor)
-)
-implements(np.fft.ifft)(_default_unary_wrapper(unyt_fft_ifft, _reciprocal_cosmo_factor))
-implements(np.fft.ifft2)(
-    _default_unary_wrapper(unyt_fft_ifft2, _reciprocal_cosmo_factor)
-)
-implements(np.fft.ifftn)(
-    _default_unary_wrapper(unyt_fft_ifftn, _reciprocal_cosmo_factor)
-)
-implements(np.fft.ihfft)(
-    _default_unary_wrapper(unyt_fft_ihfft, _reciprocal_cosmo_factor)
-)
-implements(np.fft.irfft)(
-    _default_unary_wrapper(unyt_fft_irfft, _reciprocal_cosmo_factor)
-)
+implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _preserve_cosmo_factor))
+implements(np.fft.fft2)(_default_unary_wrapper(unyt_fft_fft2, _preserve_cosmo_factor))
+implements(np.fft.fftn)(_default_unary_wrapper(unyt_fft_fftn, _preserve_cosmo_factor))
+implements(np.fft.hfft)(_default_unary_wrapper(unyt_fft_hfft, _preserve_cosmo_factor))
+implements(np.fft.rfft)(_default_unary_wrapper(unyt_fft_rfft, _preserve_cosmo_factor))
+implements(np.fft.rfft2)(_default_unary_wrapper(unyt_fft_rfft2, _preserve_cosmo_factor))
+implements(np.fft.rfftn)(_default_unary_wrapper(unyt_fft_rfftn, _preserve_cosmo_factor))
+implements(np.fft.ifft)(_default_unary_wrapper(unyt_fft_ifft, _preserve_cosmo_factor))
+implements(np.fft.ifft2)(_default_unary_wrapper(unyt_fft_ifft2, _preserve_cosmo_factor))
+implements(np.fft.ifftn)(_default_unary_wrapper(unyt_fft_ifftn, _preserve_cosmo_factor))
+implements(np.fft.ihfft)(_default_unary_wrapper(unyt_fft_ihfft, _preserve_cosmo_factor))
+implements(np.fft.irfft)(_default_unary_wrapper(unyt_fft_irfft, _preserve_cosmo_factor))
 implements(np.fft.irfft2)(
-    _default_unary_wrapper(unyt_fft_irfft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfft2, _preserve_cosmo_factor)
 )
 implements(np.fft.irfftn)(
-    _default_unary_wrapper(unyt_fft_irfftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfftn, _preserve_cosmo_factor)
 )
 implements(np.fft.fftshift)(
     _default_unary_wrapper(unyt_fft_fftshift, _preserve_cosmo_factor)
-- 
2.43.0


From d48917497bd1799d7200ddd91d0b38ec1c082da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 05/50] fix: np.histogram_bin_edges with an array of bin edges
 raised UnboundLocalError

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 3e0fddb..6b2c19b 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1314,9 +1314,7 @@ def histogram_bin_edges(  # noqa: ANN202
     else:
         # bins based on values in a
         ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_histogram_bin_edges(
-            *helper_result["args"], **helper_result["kwargs"]
-        )
+    res = unyt_histogram_bin_edges(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
 
-- 
2.43.0


From 0f55f91d3662f53d3ccb5d89dde61ff9d70483dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 06/50] fix: np.where with only a condition raised IndexError

---
 swiftsimio/_array_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6b2c19b..4d01363 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2112,6 +2112,7 @@ def where(condition, *args):  # noqa numpydoc ignore=GL08
     if len(args) == 0:  # just condition
         ret_cf = _return_without_cosmo_factor(helper_result["cfs"][0])
         res = unyt_where(*helper_result["args"], **helper_result["kwargs"])
+        return tuple(_return_helper(r, helper_result, ret_cf) for r in res)
     elif len(args) < 2:
         # error message borrowed from numpy 1.24.1
         raise ValueError("either both or neither of x and y should be given")
-- 
2.43.0


From b1fec3fdd466f8f6edee130556cc504cc2d59f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 07/50] fix: np.average uses the arguments coerced to a common
 frame

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4d01363..a6be104 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2262,9 +2262,7 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
     else:
         super_average = np.average._implementation
 
-    res = super_average(
-        a, axis=axis, weights=weights, returned=returned, keepdims=keepdims
-    )
+    res = super_average(*helper_result["args"], **helper_result["kwargs"])
     ret_cf_avg = _preserve_cosmo_factor(helper_result["cfs"][0])
     if returned:
         avg, wsum = res
-- 
2.43.0


From 666eab3a6a0959f1e731d9e7d23742eacaf6717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 08/50] fix: label the bins of np.histogram2d(density=True)
 with the frame used

---
 swiftsimio/_array_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index a6be104..f88581d 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1448,6 +1448,8 @@ def histogram2d(  # noqa: ANN202
             density=density,
             weights=helper_result["kwargs"]["weights"],
         )
+        # the bins are in the frame that everything was coerced to:
+        helper_result_x = helper_result_y = helper_result
         ret_cf_xy = _multiply_cosmo_factor(
             helper_result["cfs"][0], helper_result["cfs"][1]
         )
-- 
2.43.0


From 3c86081648a5265b3e008168eadbd7bd3864a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 09/50] fix: coerce and label the bins of
 np.histogramdd(density=True) axis by axis

All the bin edges got the cosmo_factor of the first axis, and the bins and ranges
were not coerced to the frame of the sample.
---
 swiftsimio/_array_functions.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index f88581d..29670fa 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1531,20 +1531,22 @@ def histogramdd(  # noqa: ANN202
         # now sample and weights must be compatible because they will combine
         # we unpack input to the helper to get everything checked for compatibility
         helper_result = _prepare_array_func_args(
-            *sample, bins=bins, range=range, weights=weights
+            *sample, *bins, *ranges, weights=weights
         )
-        ret_cfs = D * [_preserve_cosmo_factor(helper_result["cfs"][0])]
+        ret_cfs = helper_result["cfs"][:D]
         counts, bins = unyt_histogramdd(
-            helper_result["args"],
-            bins=helper_result["kwargs"]["bins"],
-            range=helper_result["kwargs"]["range"],
+            list(helper_result["args"][:D]),
+            bins=list(helper_result["args"][D : 2 * D]),
+            range=list(helper_result["args"][2 * D :]) if range is not None else None,
             density=density,
             weights=helper_result["kwargs"]["weights"],
         )
-        if len(helper_result["cfs"]) == 1:
-            ret_cf_sample = _preserve_cosmo_factor(helper_result["cfs"][0])
+        # the bins are in the frame that everything was coerced to:
+        helper_results = D * [helper_result]
+        if D == 1:
+            ret_cf_sample = _preserve_cosmo_factor(ret_cfs[0])
         else:
-            ret_cf_sample = _multiply_cosmo_factor(*helper_result["cfs"])
+            ret_cf_sample = _multiply_cosmo_factor(*ret_cfs)
         if weights is not None:
             ret_cf_w = _preserve_cosmo_factor(helper_result["kw_cfs"]["weights"])
             inv_ret_cf_sample = _reciprocal_cosmo_factor(ret_cf_sample)
-- 
2.43.0


From 295e489f34cee4fee7c6e761d38ad9ab063fc79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 10/50] fix: np.block attached a list instead of a cosmo_factor
 to its result

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 29670fa..c389e6d 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1637,7 +1637,7 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
     cms = [hr["comoving"] for hr in helper_results]
     vts = [hr["valid_transform"] for hr in helper_results]
     comps = [hr["compression"] for hr in helper_results]
-    cfs = [hr["cfs"] for hr in helper_results]
+    cfs = [hr["cfs"][0] for hr in helper_results]
     convert_to_cm = False
     if all(cms):
         ret_cm = True
-- 
2.43.0


From 18c73532cad46d1ee5fcfc53e2972170df21734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 11/50] fix: np.choose coerces the choices to a common frame
 and labels its result

---
 swiftsimio/_array_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index c389e6d..e7a2f7d 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1859,8 +1859,12 @@ def choose(a, choices, out=None, mode="raise"):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, choices, out=out, mode=mode)
     helper_result_choices = _prepare_array_func_args(*choices)
     ret_cf = _preserve_cosmo_factor(*helper_result_choices["cfs"])
-    res = unyt_choose(*helper_result["args"], **helper_result["kwargs"])
-    return _return_helper(res, helper_result, ret_cf, out=out)
+    res = unyt_choose(
+        helper_result["args"][0],
+        helper_result_choices["args"],
+        **helper_result["kwargs"],
+    )
+    return _return_helper(res, helper_result_choices, ret_cf, out=out)
 
 
 @implements(np.insert)
-- 
2.43.0


From 2af7872a1b2b49f3d90ee2ecbcc73e736c99ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 12/50] fix: np.select coerces the choices and the default to a
 common frame

---
 swiftsimio/_array_functions.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index e7a2f7d..809deb3 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2060,14 +2060,11 @@ implements(np.searchsorted)(
 
 @implements(np.select)
 def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(condlist, choicelist, default=default)
-    helper_result_choicelist = _prepare_array_func_args(*choicelist)
-    ret_cf = _preserve_cosmo_factor(*helper_result_choicelist["cfs"])
-    res = unyt_select(
-        helper_result["args"][0],
-        helper_result_choicelist["args"],
-        **helper_result["kwargs"],
-    )
+    helper_result = _prepare_array_func_args(*choicelist, default=default)
+    ret_cf = _preserve_cosmo_factor(*helper_result["cfs"])
+    if isinstance(default, objects.cosmo_array):
+        ret_cf = _preserve_cosmo_factor(ret_cf, helper_result["kw_cfs"]["default"])
+    res = unyt_select(condlist, helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
 
-- 
2.43.0


From 09f50be0da26b8ce999b335c35e8f8d087dd781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 13/50] fix: np.linalg.svd labels the singular values when it
 also returns u and vh

---
 swiftsimio/_array_functions.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 809deb3..78c3bf9 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1327,9 +1327,19 @@ implements(np.linalg.tensorinv)(
 implements(np.linalg.pinv)(
     _default_unary_wrapper(unyt_linalg_pinv, _reciprocal_cosmo_factor)
 )
-implements(np.linalg.svd)(
-    _default_unary_wrapper(unyt_linalg_svd, _preserve_cosmo_factor)
-)
+
+
+@implements(np.linalg.svd)
+def linalg_svd(a, full_matrices=True, compute_uv=True, hermitian=False):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(
+        a, full_matrices=full_matrices, compute_uv=compute_uv, hermitian=hermitian
+    )
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    res = unyt_linalg_svd(*helper_result["args"], **helper_result["kwargs"])
+    if compute_uv:
+        u, s, vh = res
+        return u, _return_helper(s, helper_result, ret_cf), vh
+    return _return_helper(res, helper_result, ret_cf)
 
 
 @implements(np.histogram)
-- 
2.43.0


From f3ab079e57d01df22ebd016dc8cc084bc477460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 14/50] fix: numpy functions that copy into an array leave the
 source unchanged

copyto, place, put, put_along_axis, putmask and fill_diagonal converted the array
they copy from in place. fill_diagonal also failed for plain values.
---
 swiftsimio/_array_functions.py | 51 +++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 78c3bf9..c66728a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1793,10 +1793,10 @@ def copyto(dst, src, casting="same_kind", where=True):  # noqa numpydoc ignore=G
     # must pass dst directly here because it's modified in-place
     if isinstance(src, objects.cosmo_array):
         comoving = getattr(dst, "comoving", None)
-        if comoving:
-            src.convert_to_comoving()
-        elif comoving is False:
-            src.convert_to_physical()
+        if comoving and not src.comoving:
+            src = src.to_comoving()
+        elif comoving is False and src.comoving:
+            src = src.to_physical()
     unyt_copyto(dst, src, **helper_result["kwargs"])
 
 
@@ -1996,11 +1996,12 @@ def fill_diagonal(a, val, wrap=False):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, val, wrap=wrap)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     # must pass a directly here because it's modified in-place
-    comoving = getattr(a, "comoving", None)
-    if comoving:
-        val.convert_to_comoving()
-    elif comoving is False:
-        val.convert_to_physical()
+    if isinstance(val, objects.cosmo_array):
+        comoving = getattr(a, "comoving", None)
+        if comoving and not val.comoving:
+            val = val.to_comoving()
+        elif comoving is False and val.comoving:
+            val = val.to_physical()
     unyt_fill_diagonal(a, val, **helper_result["kwargs"])
 
 
@@ -2014,10 +2015,10 @@ def place(arr, mask, vals):  # noqa numpydoc ignore=GL08
     # must pass arr directly here because it's modified in-place
     if isinstance(vals, objects.cosmo_array):
         comoving = getattr(arr, "comoving", None)
-        if comoving:
-            vals.convert_to_comoving()
-        elif comoving is False:
-            vals.convert_to_physical()
+        if comoving and not vals.comoving:
+            vals = vals.to_comoving()
+        elif comoving is False and vals.comoving:
+            vals = vals.to_physical()
     unyt_place(arr, mask, vals)
 
 
@@ -2028,10 +2029,10 @@ def put(a, ind, v, mode="raise"):  # noqa numpydoc ignore=GL08
     # must pass arr directly here because it's modified in-place
     if isinstance(v, objects.cosmo_array):
         comoving = getattr(a, "comoving", None)
-        if comoving:
-            v.convert_to_comoving()
-        elif comoving is False:
-            v.convert_to_physical()
+        if comoving and not v.comoving:
+            v = v.to_comoving()
+        elif comoving is False and v.comoving:
+            v = v.to_physical()
     unyt_put(a, ind, v, **helper_result["kwargs"])
 
 
@@ -2042,10 +2043,10 @@ def put_along_axis(arr, indices, values, axis):  # noqa numpydoc ignore=GL08
     # must pass arr directly here because it's modified in-place
     if isinstance(values, objects.cosmo_array):
         comoving = getattr(arr, "comoving", None)
-        if comoving:
-            values.convert_to_comoving()
-        elif comoving is False:
-            values.convert_to_physical()
+        if comoving and not values.comoving:
+            values = values.to_comoving()
+        elif comoving is False and values.comoving:
+            values = values.to_physical()
     unyt_put_along_axis(arr, indices, values, axis)
 
 
@@ -2056,10 +2057,10 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     # must pass arr directly here because it's modified in-place
     if isinstance(values, objects.cosmo_array):
         comoving = getattr(a, "comoving", None)
-        if comoving:
-            values.convert_to_comoving()
-        elif comoving is False:
-            values.convert_to_physical()
+        if comoving and not values.comoving:
+            values = values.to_comoving()
+        elif comoving is False and values.comoving:
+            values = values.to_physical()
     unyt_putmask(a, mask, values)
 
 
-- 
2.43.0


From 8445fd5172b772bd1442e981068e00aa78ea55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 15/50] fix: check that concatenated arrays have the same
 cosmo_factor

np.concatenate and the stack functions labelled their result with the cosmo_factor
of the first array even if the others scale differently.
---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index c66728a..cd75e77 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1263,7 +1263,7 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
         """
         helper_result = _prepare_array_func_args(*args, **kwargs)
         helper_result_oplist = _prepare_array_func_args(*args[0])
-        ret_cf = _preserve_cosmo_factor(helper_result_oplist["cfs"][0])
+        ret_cf = _preserve_cosmo_factor(*helper_result_oplist["cfs"])
         res = unyt_func(
             helper_result_oplist["args"],
             *helper_result["args"][1:],
-- 
2.43.0


From e78fa166d763050ec1c640911fb4e5ae46eccd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 16/50] fix: write into the out array that was given, whatever
 its frame

Functions with an out array in another frame than their arguments wrote their result
to a converted copy of it (or converted their arguments to match it).
---
 swiftsimio/_array_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index cd75e77..29fabe4 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -897,6 +897,9 @@ def _prepare_array_func_args(
     ValueError
         If the input arrays cannot be coerced to a consistent state of ``comoving``.
     """
+    # an output array is only written to, so it has no influence on the calculation and
+    # must be passed on itself (not a converted copy):
+    out = {"out": kwargs.pop("out")} if "out" in kwargs else {}
     cms = [(hasattr(arg, "comoving"), getattr(arg, "comoving", None)) for arg in args]
     cfs = [getattr(arg, "cosmo_factor", None) for arg in args]
     vts = [getattr(arg, "valid_transform", True) for arg in args]
@@ -968,7 +971,7 @@ def _prepare_array_func_args(
         ret_comp = None
     return {
         "args": args,
-        "kwargs": kwargs,
+        "kwargs": {**kwargs, **out},
         "cfs": cfs,
         "kw_cfs": kw_cfs,
         "comoving": ret_cm,
-- 
2.43.0


From 5945587056ece708a20f079fcb7ce91c10be1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 17/50] fix: np.clip with min and max keyword arguments or only
 one limit raised

---
 swiftsimio/_array_functions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 29fabe4..8941fb5 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2107,6 +2107,15 @@ def clip(  # noqa numpydoc ignore=GL08
 ):
     # can't work out how to properly handle min and max,
     # just leave them in kwargs I guess (might be a numpy version conflict?)
+    if a_min is np._NoValue and a_max is np._NoValue:
+        a_min = None if min is np._NoValue else min
+        a_max = None if max is np._NoValue else max
+    if a_min is None and a_max is None:
+        return np.positive(a, out=out, **kwargs)
+    elif a_min is None:
+        return np.minimum(a, a_max, out=out, **kwargs)
+    elif a_max is None:
+        return np.maximum(a, a_min, out=out, **kwargs)
     helper_result = _prepare_array_func_args(
         a, a_min=a_min, a_max=a_max, out=out, **kwargs
     )
-- 
2.43.0


From d8b4ef3a1174c9d840f1cd48253d4f28bc3fa791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 18/50] fix: np.digitize compared comoving values with physical
 bin edges

---
 swiftsimio/_array_functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 8941fb5..ca8dc95 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -25,6 +25,7 @@ from unyt._array_functions import (
     outer as unyt_outer,
     kron as unyt_kron,
     histogram_bin_edges as unyt_histogram_bin_edges,
+    digitize as unyt_digitize,
     linalg_inv as unyt_linalg_inv,
     linalg_tensorinv as unyt_linalg_tensorinv,
     linalg_pinv as unyt_linalg_pinv,
@@ -1345,6 +1346,13 @@ def linalg_svd(a, full_matrices=True, compute_uv=True, hermitian=False):  # noqa
     return _return_helper(res, helper_result, ret_cf)
 
 
+@implements(np.digitize)
+def digitize(x, bins, right=False):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(x, bins, right=right)
+    _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
+    return unyt_digitize(*helper_result["args"], **helper_result["kwargs"])
+
+
 @implements(np.histogram)
 def histogram(  # noqa: ANN202
     a,  # noqa: ANN001
-- 
2.43.0


From 4c9425f165c953adb1f2568443fcc52df2f2a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 19/50] fix: bypass_validation with scale_factor raised
 AttributeError

The cosmo_factor argument shadows the class of the same name, so
cosmo_factor.create was looked up on None.
---
 swiftsimio/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9e00608..3b4895f 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1155,9 +1155,11 @@ class cosmo_array(unyt_array):
 
             # dtype, units, registry & name are handled by unyt
             obj.comoving = comoving
-            obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             if scale_factor is not None:  # ambiguity, but this is `bypass_validation`
-                obj.cosmo_factor = cosmo_factor.create(scale_factor, scale_exponent)
+                cosmo_factor = _parse_cosmo_factor_args(
+                    scale_factor=scale_factor, scale_exponent=scale_exponent
+                )
+            obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             obj.valid_transform = valid_transform
             obj.compression = compression
 
-- 
2.43.0


From 0279df9227ec0a5463b0ea4705dd0a0b1ec51b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 20/50] fix: cosmo_array(x, comoving=...) corrupted x

The new array is a view of the input, converting it in place changed the
numbers of the input but not its comoving flag.
---
 swiftsimio/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 3b4895f..c9b1504 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1194,6 +1194,9 @@ class cosmo_array(unyt_array):
                 # value across to avoid defaulting to None
                 obj.cosmo_factor = input_array.cosmo_factor
 
+            if comoving is not None and comoving != obj.comoving:
+                # obj still shares its memory with input_array, don't convert in place
+                obj = obj.copy()
             if comoving is True:
                 obj.convert_to_comoving()
             elif comoving is False:
-- 
2.43.0


From 9d16273ea03140fd7d369ca81623b90b477da1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 21/50] fix: cosmo_array(x, cosmo_factor=...) ignored the
 cosmo_factor

The argument was discarded when x is a cosmo_array, even if x has no
cosmo_factor of its own or a different one.
---
 swiftsimio/objects.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index c9b1504..c796ce2 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1177,11 +1177,17 @@ class cosmo_array(unyt_array):
             obj.valid_transform = input_array.valid_transform
 
             # do cosmo_factor first since it can be used in comoving/physical conversion:
-            cosmo_factor = (
-                input_array.cosmo_factor
-                if input_array.cosmo_factor != NULL_CF
-                else None
-            )
+            if input_array.cosmo_factor != NULL_CF:
+                if (
+                    cosmo_factor is not None
+                    and cosmo_factor != NULL_CF
+                    and cosmo_factor != input_array.cosmo_factor
+                ):
+                    raise ValueError(
+                        "The `cosmo_factor` provided does not match the `cosmo_factor` "
+                        "attached to the input array."
+                    )
+                cosmo_factor = input_array.cosmo_factor
             cosmo_factor = _parse_cosmo_factor_args(
                 cf=cosmo_factor,
                 scale_factor=scale_factor,
-- 
2.43.0


From 98de716e2857080e3e1202ef8b2ec818c7435ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 22/50] fix: from_astropy and from_pint ignored valid_transform

The attribute name was misspelled.
---
 swiftsimio/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index c796ce2..b3fb464 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1923,7 +1923,7 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform
 
         return obj
 
@@ -1985,7 +1985,7 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform
 
         return obj
 
-- 
2.43.0


From aea2aefaa4504c26cf7f0851edcd5de9b39bcb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 23/50] fix: cosmo_quantity(q, comoving=...) relabelled q
 without converting it

---
 swiftsimio/objects.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index b3fb464..8a75f30 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2505,6 +2505,15 @@ class cosmo_quantity(cosmo_array, unyt_quantity):
         if not isinstance(input_scalar, (numeric_type, np.number, np.ndarray)):
             raise RuntimeError("cosmo_quantity values must be numeric")
 
+        if (
+            isinstance(input_scalar, cosmo_array)
+            and comoving is not None
+            and input_scalar.comoving is not None
+            and comoving != input_scalar.comoving
+        ):
+            # as for cosmo_array, asking for the other frame converts the value
+            input_scalar = input_scalar.to(comoving=comoving)
+
         # Use values from kwargs, if None use values from input_scalar
         units = getattr(input_scalar, "units", None) if units is None else units
         name = getattr(input_scalar, "name", None) if name is None else name
-- 
2.43.0


From 46839ce0726d107a9d6510457cca4912e01a50d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 24/50] fix: assigning physical values into a comoving array
 stored the wrong numbers

unyt converts the units of an assigned value, do the same for the frame.
---
 swiftsimio/objects.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 8a75f30..391bb91 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1410,6 +1410,28 @@ class cosmo_array(unyt_array):
     __getitem__ = _propagate_cosmo_array_attributes_to_result(
         _ensure_result_is_cosmo_array_or_quantity(unyt_array.__getitem__)
     )
+
+    def __setitem__(self, item: Any, value: Any) -> None:
+        """
+        Set elements, converting a comoving or physical value to match this array.
+
+        Parameters
+        ----------
+        item : Any
+            The index or slice to set.
+
+        value : Any
+            The value(s) to assign.
+        """
+        if (
+            isinstance(value, cosmo_array)
+            and self.comoving is not None
+            and value.comoving is not None
+            and value.comoving != self.comoving
+        ):
+            value = value.to(comoving=self.comoving)
+        super().__setitem__(item, value)
+
     dot = _default_binary_wrapper(unyt_array.dot, _multiply_cosmo_factor)
     squeeze = _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
 
-- 
2.43.0


From 843ebb5ac22627e86903ad8f64baf89f6d11ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 25/50] fix: cosmo_array([...], comoving=...) relabelled
 without converting

A list of physical quantities with comoving=True became comoving numbers
that were really physical, and the other way around.
---
 swiftsimio/objects.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 391bb91..3b46ba0 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1242,6 +1242,15 @@ class cosmo_array(unyt_array):
             )
 
             input_array = helper_result["args"]
+            if (
+                comoving is not None
+                and helper_result["comoving"] is not None
+                and helper_result["comoving"] != comoving
+            ):
+                input_array = [
+                    x.to(comoving=comoving) if isinstance(x, cosmo_array) else x
+                    for x in input_array
+                ]
 
             # default to comoving, cosmo_factor and compression given as kwargs
             comoving = helper_result["comoving"] if comoving is None else comoving
-- 
2.43.0


From 909d4d02968dd2405ccd1f784a9f6ccbaac0802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 26/50] fix: SPH slice skipped the last row and column of
 pixels inside the kernel

---
 swiftsimio/visualisation/slice_backends/sph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/slice_backends/sph.py b/swiftsimio/visualisation/slice_backends/sph.py
index 6cc4704..52a45fa 100644
--- a/swiftsimio/visualisation/slice_backends/sph.py
+++ b/swiftsimio/visualisation/slice_backends/sph.py
@@ -197,7 +197,7 @@ def slice_scatter(
                         max(0, particle_cell_x - cells_spanned),
                         # Ensure that the highest x value lies within the array bounds,
                         # otherwise we'll segfault (oops).
-                        min(particle_cell_x + cells_spanned, maximal_array_index + 1),
+                        min(particle_cell_x + cells_spanned + 1, maximal_array_index + 1),
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -209,7 +209,7 @@ def slice_scatter(
                         for cell_y in range(
                             max(0, particle_cell_y - cells_spanned),
                             min(
-                                particle_cell_y + cells_spanned, maximal_array_index + 1
+                                particle_cell_y + cells_spanned + 1, maximal_array_index + 1
                             ),
                         ):
                             distance_y = (
-- 
2.43.0


From b7de2c32608b591026a2fa832b4b4ed39f19ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 27/50] fix: volume render skipped the last layer of voxels
 inside the kernel

---
 .../visualisation/volume_render_backends/scatter.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index c7fa88d..76d1241 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -175,7 +175,7 @@ def scatter(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1, maximal_array_index + 1
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -188,7 +188,7 @@ def scatter(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -199,7 +199,7 @@ def scatter(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned),
                                     min(
-                                        particle_cell_z + cells_spanned,
+                                        particle_cell_z + cells_spanned + 1,
                                         maximal_array_index + 1,
                                     ),
                                 ):
@@ -401,7 +401,7 @@ def scatter_limited_z(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1, maximal_array_index + 1
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -414,7 +414,7 @@ def scatter_limited_z(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -425,7 +425,7 @@ def scatter_limited_z(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned_z),
                                     min(
-                                        particle_cell_z + cells_spanned_z,
+                                        particle_cell_z + cells_spanned_z + 1,
                                         maximal_array_index_z + 1,
                                     ),
                                 ):
-- 
2.43.0


From 879938e331a1122958451dca61aa64c7d74b75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 28/50] fix: scatter_limited_z did not tile boxes smaller than
 the rendered region

---
 swiftsimio/visualisation/volume_render_backends/scatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index 76d1241..8746cdc 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -328,19 +328,19 @@ def scatter_limited_z(
         xshift_max = 1
     else:
         xshift_min = -1
-        xshift_max = 2
+        xshift_max = int(np.ceil(1 / box_x) + 1)  # tile the box to cover [0, 1]
     if box_y == 0.0:
         yshift_min = 0
         yshift_max = 1
     else:
         yshift_min = -1
-        yshift_max = 2
+        yshift_max = int(np.ceil(1 / box_y) + 1)  # tile the box to cover [0, 1]
     if box_z == 0.0:
         zshift_min = 0
         zshift_max = 1
     else:
         zshift_min = -1
-        zshift_max = 2
+        zshift_max = int(np.ceil(1 / box_z) + 1)  # tile the box to cover [0, 1]
 
     for x_pos_original, y_pos_original, z_pos_original, mass, hsml in zip(
         x, y, z, m, h
-- 
2.43.0


From 052d9fcf7251a7a328ee135e9355f5673e0532f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 29/50] fix: renormalised projection normalised over fewer
 pixels than it fills

---
 .../visualisation/projection_backends/renormalised.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/renormalised.py b/swiftsimio/visualisation/projection_backends/renormalised.py
index 25af4bc..2c68e5c 100644
--- a/swiftsimio/visualisation/projection_backends/renormalised.py
+++ b/swiftsimio/visualisation/projection_backends/renormalised.py
@@ -151,8 +151,8 @@ def scatter(
                     normalisation = np.float32(0.0)
 
                     for cell_x in range(
-                        particle_cell_x - cells_spanned + 1,
-                        particle_cell_x + cells_spanned,
+                        particle_cell_x - cells_spanned,
+                        particle_cell_x + cells_spanned + 1,
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -162,8 +162,8 @@ def scatter(
                         ) * pixel_width - np.float32(x_pos)
                         distance_x_2 = distance_x * distance_x
                         for cell_y in range(
-                            particle_cell_y - cells_spanned + 1,
-                            particle_cell_y + cells_spanned,
+                            particle_cell_y - cells_spanned,
+                            particle_cell_y + cells_spanned + 1,
                         ):
                             distance_y = (
                                 np.float32(cell_y) + 0.5
-- 
2.43.0


From 3c3fa50f74e6aa34473c4a8839b5fe33740f00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 30/50] fix: parallel volume render with res_ratio_z allocated
 the wrong shape

---
 swiftsimio/visualisation/volume_render_backends/scatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index 8746cdc..5eebb6a 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -529,7 +529,7 @@ def scatter_parallel(
     number_of_particles = x.size
     core_particles = number_of_particles // NUM_THREADS
 
-    output = np.zeros((res, res, res), dtype=np.float32)
+    output = np.zeros((res, res, res // res_ratio_z), dtype=np.float32)
 
     for thread in prange(NUM_THREADS):
         # Left edge is easy, just start at 0 and go to 'final'
-- 
2.43.0


From b05a18dc1fe4a9f69298ff712ec13da9bac80a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 31/50] fix: subsampled projection ignored kernels overlapping
 the upper pixel edges

---
 swiftsimio/visualisation/projection_backends/subsampled.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/subsampled.py b/swiftsimio/visualisation/projection_backends/subsampled.py
index 8285e6b..5a3625a 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled.py
@@ -179,9 +179,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
-- 
2.43.0


From 9a55094b5dddbfe2355a52878d4864041bed893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:47 +0000
Subject: [PATCH 32/50] fix: subsampled_extreme projection ignored kernels
 overlapping the upper pixel edges

---
 .../visualisation/projection_backends/subsampled_extreme.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
index f69f13b..74f3538 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
@@ -180,9 +180,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1.0 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1.0 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
-- 
2.43.0


From f444a906e0fb3bfe3a9cd4e54043a7282bd6a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:04 +0000
Subject: [PATCH 33/50] fix: visualising periodic data wrapped the user's
 coordinates in place

---
 swiftsimio/visualisation/_vistools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/_vistools.py b/swiftsimio/visualisation/_vistools.py
index fe4a6ff..f267257 100644
--- a/swiftsimio/visualisation/_vistools.py
+++ b/swiftsimio/visualisation/_vistools.py
@@ -168,7 +168,7 @@ def _get_rotated_and_wrapped_coordinates(
     else:
         coords = data.coordinates
     if periodic:
-        coords %= data.metadata.boxsize.to(comoving=coords.comoving)
+        coords = coords % data.metadata.boxsize.to(comoving=coords.comoving)
     return coords.T
 
 
-- 
2.43.0


From 57ba7e781280ed1e673837fca00f94205848464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:04 +0000
Subject: [PATCH 34/50] fix: projections of non-square regions were normalised
 by the wrong area

---
 swiftsimio/visualisation/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/projection.py b/swiftsimio/visualisation/projection.py
index 90a3650..a9227f9 100644
--- a/swiftsimio/visualisation/projection.py
+++ b/swiftsimio/visualisation/projection.py
@@ -146,7 +146,7 @@ def project_pixel_grid(
         box_x=region_info["periodic_box_x"],
         box_y=region_info["periodic_box_y"],
     )
-    norm = region_info["x_range"] * region_info["y_range"]
+    norm = region_info["max_range"] ** 2
     backend_func = (backends_parallel if parallel else backends)[backend]
     image = backend_strip_and_restore_cosmo_and_units(backend_func, norm=norm)(**kwargs)
 
-- 
2.43.0


From 9954a6304911fa0c4e89868da0f216712236e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:04 +0000
Subject: [PATCH 35/50] fix: 2D colour maps called with lists used the values
 as an array shape

---
 swiftsimio/visualisation/tools/cmaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index a65f2a0..7ef9f12 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -195,7 +195,7 @@ class Cmap2D(object):
             horizontal_values = np.array(horizontal_values)
 
         if isinstance(vertical_values, list) or isinstance(vertical_values, tuple):
-            vertical_values = np.ndarray(vertical_values)
+            vertical_values = np.array(vertical_values)
 
         output_shape = horizontal_values.shape + (4,)
 
-- 
2.43.0


From a1afefd5ce26c908e8a4edca9873a28c2697b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:04 +0000
Subject: [PATCH 36/50] fix: 2D colour maps swapped the horizontal and vertical
 values

---
 swiftsimio/visualisation/tools/cmaps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index 7ef9f12..cda4c95 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -75,8 +75,8 @@ def apply_color_map(
         (number_of_values, 4)
     )
 
-    norm_x = np.float32(len(map_grid) - 1)
-    norm_y = np.float32(len(map_grid[0]) - 1)
+    norm_x = np.float32(len(map_grid[0]) - 1)
+    norm_y = np.float32(len(map_grid) - 1)
 
     for index in range(number_of_values):
         horizontal = norm_x * min(max(first_values[index], 0.0), 1.0)
@@ -86,7 +86,7 @@ def apply_color_map(
         vertical_base = np.int32(vertical)
 
         # Could do some more fancy interpolation but I'm sure this will do.
-        output_values[index] = map_grid[horizontal_base, vertical_base]
+        output_values[index] = map_grid[vertical_base, horizontal_base]
 
     return output_values
 
-- 
2.43.0


From 71a3a1e6a88be80a9907ac33cf4a7ddcefb75bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:04 +0000
Subject: [PATCH 37/50] fix: rotation_matrix_from_vector reflected vectors
 already along the axis

---
 swiftsimio/visualisation/rotation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/visualisation/rotation.py b/swiftsimio/visualisation/rotation.py
index b655945..ee8582a 100644
--- a/swiftsimio/visualisation/rotation.py
+++ b/swiftsimio/visualisation/rotation.py
@@ -45,17 +45,19 @@ def rotation_matrix_from_vector(vector: np.float64, axis: str = "z") -> np.ndarr
 
     cross_product = np.cross(original_direction, normed_vector)
     mod_cross_product = np.linalg.norm(cross_product)
-    cross_product = cross_product / mod_cross_product
+    cos_theta = np.dot(original_direction, normed_vector)
 
     if mod_cross_product <= 1e-6:
-        # This case only covers when we point the vector
-        # in the exact opposite direction (e.g. flip z).
         output = np.identity(3)
-        output[switch[axis], switch[axis]] = -1.0
+        if cos_theta < 0.0:
+            # The vector points in the exact opposite direction: rotate by pi
+            # about one of the other axes (e.g. flip z and y).
+            output[switch[axis], switch[axis]] = -1.0
+            output[switch[axis] - 1, switch[axis] - 1] = -1.0
 
         return output
     else:
-        cos_theta = np.dot(original_direction, normed_vector)
+        cross_product = cross_product / mod_cross_product
         sin_theta = np.sin(np.arccos(cos_theta))
 
         # Skew symmetric matrix for cross product
-- 
2.43.0


From e597df701b09e5a41f85fc9445c233778dc7c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 38/50] fix: generate_smoothing_lengths mixed comoving and
 physical box and coordinates

---
 swiftsimio/visualisation/smoothing_length/generate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index 375709c..88b0bed 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -61,6 +61,12 @@ def generate_smoothing_lengths(
 
     number_of_parts = coordinates.shape[0]
 
+    # The periodic box has to be in the same frame as the coordinates
+    if getattr(coordinates, "comoving", None) is True:
+        boxsize = getattr(boxsize, "to_comoving", lambda: boxsize)()
+    elif getattr(coordinates, "comoving", None) is False:
+        boxsize = getattr(boxsize, "to_physical", lambda: boxsize)()
+
     tree = KDTree(
         coordinates.to_value(coordinates.units),
         boxsize=boxsize.to_value(coordinates.units),
-- 
2.43.0


From 6cfe73c63fe6192c7f341af68120e88a4938a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 39/50] fix: sort cells by the offsets of all particle types,
 empty cells first

---
 swiftsimio/masks.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 88fe7d2..131c77e 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -379,24 +379,18 @@ class SWIFTMask(HandleProvider):
             self.maxpositions["shared"] = (
                 centers_values + (pad_cells + 0.5) * metadata_handle.attrs["size"]
             )
-        # Only want to compute this once (even if it is fast, we do not
-        # have a reliable stable sort in the case where cells do not
-        # contain at least one of each type of particle).
-        self.cell_sort = None
+        # When using MPI, we cannot assume that these are sorted. The cells are in the
+        # same order for all particle types, but a cell without particles of some type
+        # has the same offset as the next cell, so look at all types together. Cells
+        # that contain nothing at all go before the cell that they share offsets with.
+        self.cell_sort = np.lexsort(
+            (sum(self.counts.values()), sum(self.offsets.values()))
+        )
 
         # Now perform sort:
         for key in self.offsets.keys():
-            offsets = self.offsets[key]
-            counts = self.counts[key]
-
-            # When using MPI, we cannot assume that these are sorted.
-            if self.cell_sort is None:
-                # Only compute once; not stable between particle
-                # types if some datasets do not have particles in a cell!
-                self.cell_sort = np.argsort(offsets, stable=True)
-
-            self.offsets[key] = offsets[self.cell_sort]
-            self.counts[key] = counts[self.cell_sort]
+            self.offsets[key] = self.offsets[key][self.cell_sort]
+            self.counts[key] = self.counts[key][self.cell_sort]
 
         # Also need to sort centers in the same way
         self.centers = cosmo_array(
-- 
2.43.0


From 91d2f0eb88c91e078ce24f75ce52153b6a6219d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 40/50] fix: convert byte order before extracting ranges from
 chunks

---
 swiftsimio/accelerated.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 8d1f65d..1f17568 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -417,12 +417,13 @@ def read_ranges_from_file_chunked(
 
         already_read += size_of_range
 
+    # Ensure the result is a native endian type (before the extraction, since numba does
+    # not support any other)
+    to_native_byteorder_inplace(output)
+
     if handle.chunks is not None:
         output = extract_ranges_from_chunks(output, chunk_ranges, ranges)
 
-    # Ensure the result is a native endian type
-    to_native_byteorder_inplace(output)
-
     return output
 
 
-- 
2.43.0


From 19dbabd77bc8aa54609b32f3c152dc7dd580ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 41/50] fix: select the rows of cells added by a union to a
 boolean spatial mask

---
 swiftsimio/masks.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 131c77e..20028ea 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -658,9 +658,9 @@ class SWIFTMask(HandleProvider):
         """
         Update the particle masks using the cell masks.
 
-        We actually overwrite all non-used cells with ``False``, rather than the
-        inverse, as we assume initially that we want to read all particles in,
-        and we want to respect other masks that may have been applied to the data.
+        A boolean mask is rewritten cell by cell: the rows of used cells are ``True``
+        (also for cells added by a ``union``), those of non-used cells ``False``. Spatial
+        constraints can only be applied before any other, so no other mask is overwritten.
         """
         for data_name in self.update_list:
             count_name = data_name[1:]  # Remove the underscore
@@ -675,18 +675,16 @@ class SWIFTMask(HandleProvider):
                 setattr(self, f"{data_name}_size", np.sum(counts))
 
             else:
-                counts = self.counts[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
-                offsets = self.offsets[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
+                counts = self.counts[count_name]
+                offsets = self.offsets[count_name]
 
                 # We must do the whole boolean mask business.
                 this_mask = getattr(self, data_name)
 
-                for count, offset in zip(counts, offsets):
-                    this_mask[offset : count + offset] = False
+                for count, offset, used in zip(
+                    counts, offsets, self.cell_mask[count_name]
+                ):
+                    this_mask[offset : count + offset] = used
 
         return
 
-- 
2.43.0


From d47ed973bb6aacab894aff1fcd83f208d03c07ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 42/50] fix: keep the (n, 2) shape of a spatial mask that
 selects no cell

---
 swiftsimio/masks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 20028ea..e619f75 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -671,7 +671,9 @@ class SWIFTMask(HandleProvider):
 
                 this_mask = [[o, c + o] for c, o in zip(counts, offsets)]
 
-                setattr(self, data_name, np.array(this_mask))
+                setattr(
+                    self, data_name, np.array(this_mask, dtype=np.int64).reshape(-1, 2)
+                )
                 setattr(self, f"{data_name}_size", np.sum(counts))
 
             else:
-- 
2.43.0


From 01c78252a700dbd3369479b3405d4ffdaf57a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 43/50] fix: keep the shape of (N, 1) and empty datasets when
 writing a subset

---
 swiftsimio/subset_writer.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index b402735..c174ebb 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -350,14 +350,10 @@ def _write_datasubset(
             if any([substr for substr in skip_list if substr in name]):
                 continue
 
-            # get output dtype and size
-            first_value = infile[name][0]
-            output_type = first_value.dtype
-            output_size = first_value.size
+            # get output dtype and shape
+            output_type = infile[name].dtype
             mask_size = _get_dataset_size(mask, name)
-            output_shape = (
-                (mask_size, output_size) if output_size != 1 else (mask_size,)
-            )
+            output_shape = (mask_size, *infile[name].shape[1:])
 
             if (dataset_mask := _get_dataset_mask(mask, name)) is None:
                 raise RuntimeError(f"Could not find mask for dataset `{name}`.")
-- 
2.43.0


From c846a6f9599c9c055b59bdd345e98d6e1dfdb559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 44/50] fix: write the a-scale exponent 0 of fields independent
 of the scale factor

expr has no exp when it is 1 (exponent 0), for which 1.0 was written.
---
 swiftsimio/snapshot_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 0ddebb0..b8368cc 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -11,7 +11,7 @@ from functools import reduce
 
 from swiftsimio import metadata
 from swiftsimio.metadata.writer.unit_systems import cosmo_units
-from swiftsimio.objects import cosmo_array
+from swiftsimio.objects import a, cosmo_array
 
 
 def _ptype_str_to_int(ptype_str: str) -> int:
@@ -272,7 +272,7 @@ class __SWIFTWriterParticleDataset(object):
                 "U_T exponent": [dim_exponents[temperature]],
                 "U_t exponent": [dim_exponents[time]],
                 "a-scale exponent": [
-                    float(getattr(field.cosmo_factor.expr, "exp", 1.0))
+                    float(field.cosmo_factor.expr.as_powers_dict()[a])
                 ],
                 "h-scale exponent": [0.0],
             }
-- 
2.43.0


From 0f9f12c58e17521669bac8ca4853ff2c0434eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 45/50] fix: write one NumPart_Total_HighWord entry per
 particle type

---
 swiftsimio/snapshot_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index b8368cc..f962698 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -776,7 +776,7 @@ class SWIFTSnapshotWriter(object):
         attrs = {
             "BoxSize": self.boxsize,
             "NumPart_Total": number_of_particles,
-            "NumPart_Total_HighWord": [0] * 6,
+            "NumPart_Total_HighWord": [0] * part_types,
             "Flag_Entropy_ICs": 0,
             "Dimension": np.array([self.dimension]),
             "Scale-factor": [self.scale_factor],
-- 
2.43.0


From d4d31205345c3a908b271024d0811733069da63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 46/50] fix: write the comoving box size when the Writer is
 given a physical one

---
 swiftsimio/snapshot_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index f962698..fb9fa47 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -684,6 +684,8 @@ class SWIFTSnapshotWriter(object):
             )
         self.boxsize = np.copy(boxsize, subok=True)
         self.boxsize.convert_to_base(self.unit_system)
+        if isinstance(self.boxsize, cosmo_array):
+            self.boxsize.convert_to_comoving()
 
         self.dimension = dimension
         self.compress = compress
-- 
2.43.0


From 289aadc5f05f61baef3009cde5febbfad03601b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 47/50] fix: do not convert the user's array when assigning it
 to a Writer field

---
 swiftsimio/snapshot_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index fb9fa47..530c6f6 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -401,7 +401,7 @@ def generate_setter(
         if dimensions != 1:
             if isinstance(value, cosmo_array):
                 if value.units.dimensions == dimensions:
-                    value.convert_to_base(unit_system)
+                    value = value.in_base(unit_system)
                     value.convert_to_comoving()
                     setattr(self, f"_{name}", value)
                 else:
-- 
2.43.0


From 799bef70b1263e602a8fef226859ad0a0a04044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:21 +0000
Subject: [PATCH 48/50] fix: read ranges of chunked datasets with more than two
 axes

---
 swiftsimio/accelerated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 1f17568..9d77a20 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -386,8 +386,8 @@ def read_ranges_from_file_chunked(
     chunk_range_size = np.diff(chunk_ranges).sum()
 
     try:
-        output_shape = (chunk_range_size, output_shape[1])
-    except (TypeError, IndexError):
+        output_shape = (chunk_range_size, *output_shape[1:])
+    except TypeError:
         # Output shape is just a number, we have a 1D array.
         output_shape = chunk_range_size
 
-- 
2.43.0


From 91554f51e4697d5cad6fdc822f27a982c58472f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 49/50] fix: get_units, get_metadata and create_datasets work
 after loading and close the file

---
 swiftsimio/_handle_provider.py |  2 +-
 swiftsimio/reader.py           | 33 ++++++++++++++++++---------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/swiftsimio/_handle_provider.py b/swiftsimio/_handle_provider.py
index 6610e9d..5fecac0 100644
--- a/swiftsimio/_handle_provider.py
+++ b/swiftsimio/_handle_provider.py
@@ -58,7 +58,7 @@ class HandleProvider:
 
     def _close_handle_if_manager(self) -> None:
         """Close the file handle if this object is the manager of the handle."""
-        if self.handle_manager:
+        if self.handle_manager and self._handle:
             self._handle.close()
 
     @contextmanager
diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 07941a5..09436b5 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -758,7 +758,8 @@ class SWIFTDataset(HandleProvider):
             ), f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
             self.units = self.mask.units
         else:
-            self.units = SWIFTUnits(self.filename, handle=self.handle)
+            with self.open_file() as handle:
+                self.units = SWIFTUnits(self.filename, handle=handle)
 
         return
 
@@ -776,9 +777,10 @@ class SWIFTDataset(HandleProvider):
             ), f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
             self.metadata = self.mask.metadata
         else:
-            self.metadata = _metadata_discriminator(
-                self.filename, self.units, handle=self.handle
-            )
+            with self.open_file() as handle:
+                self.metadata = _metadata_discriminator(
+                    self.filename, self.units, handle=handle
+                )
 
         return
 
@@ -793,16 +795,17 @@ class SWIFTDataset(HandleProvider):
         if not hasattr(self, "metadata"):
             self.get_metadata()
 
-        for group_name in self.metadata.present_group_names:
-            setattr(
-                self,
-                group_name,
-                _generate_datasets(
-                    self.filename,
-                    getattr(self.metadata, f"{group_name}_properties"),
-                    self.mask,
-                    handle=self.handle,
-                ),
-            )
+        with self.open_file() as handle:
+            for group_name in self.metadata.present_group_names:
+                setattr(
+                    self,
+                    group_name,
+                    _generate_datasets(
+                        self.filename,
+                        getattr(self.metadata, f"{group_name}_properties"),
+                        self.mask,
+                        handle=handle,
+                    ),
+                )
 
         return
-- 
2.43.0


From 5f2b0f6842c67e382bd5a2e6d433a2929eee09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 50/50] fix: masked reads of datasets with more than two axes

---
 swiftsimio/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 09436b5..789e085 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -137,7 +137,7 @@ def _generate_getter(
                     if mask is not None:
                         output_type = handle[field].dtype
                         output_shape = (
-                            (mask_size, handle[field].shape[1])
+                            (mask_size, *handle[field].shape[1:])
                             if handle[field].ndim > 1 and not use_columns
                             else mask_size
                         )
-- 
2.43.0

