From 26cedb24397c1698289f6bc43cad027d842bae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 001/133] fix: sample adaptively built functions at no fewer
 than 17 points

Powers and quotients of short functions passed the length of their operand as
the initial sample count.  Below 17 points the happiness test pads with zeros
and always succeeds, so the results were silently wrong (errors of 1e-3).
---
 funpy/cheb/refine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index f6d2d7c..55919e5 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -25,7 +25,8 @@ class FunctionContainer:
 """ Base class for resampling and refining operations  """
 class RefineBase:
     def __init__(self, op, *args, **kwargs):
-        self.minSamples = max(9, kwargs.pop('minSamples', 9))
+        # the happiness test cannot reject fewer than 17 samples
+        self.minSamples = max(17, kwargs.pop('minSamples', 17))
         self.op = op
         self.strategy = kwargs.pop('strategy', 'nested')
         self.values = np.zeros((0,0), order='F')
-- 
2.43.0


From af73bfdb7fd331015ef48edd871f438dc766af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 002/133] fix: sample integer powers finely enough to avoid
 aliasing

---
 funpy/cheb/ufuncs.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 6167917..0d5d990 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -41,7 +41,11 @@ def power(x1, x2, **kwargs):
         # Do nothing just return the function
         if x2 == 1.0:
             return x1
-        return chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=x1.n, eps=x1.eps)
+        # an integer power is a polynomial of known degree -> never sample it more coarsely
+        n = x1.n
+        if x2 > 1 and float(x2).is_integer():
+            n = int(x2) * (x1.n - 1) + 1
+        return chebtech(op=lambda x: np.float_power(x1(x), x2), minSamples=n, eps=x1.eps)
     else:
         return NotImplemented
 
-- 
2.43.0


From 9d92f33cb3ec918b1eea67d914d2eafe451a1089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 003/133] fix: multiply array-valued functions by constant
 functions column by column

---
 funpy/cheb/ufuncs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 0d5d990..930e0d8 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -204,8 +204,8 @@ def multiply(x1, x2, **kwargs):
             x2 = np.expand_dims(x2, axis=1)
 
         # Otherwise the shape of the ndarray must be the same as
-        # for the coefficients
-        assert x1.shape == x2.shape, 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
+        # for the coefficients, or it must be a row with one constant per column
+        assert x1.shape == x2.shape or x2.shape == (1, x1.m), 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
 
         # multiply the coefficients
         if out is not None:
-- 
2.43.0


From 2e8132170aa72f06f07f6c28bcf62e605b9cb768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 004/133] fix: evaluating a real even-length periodic function
 no longer rewrites its coefficients

---
 funpy/trig/eval.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/eval.py b/funpy/trig/eval.py
index 98ee671..362d01b 100644
--- a/funpy/trig/eval.py
+++ b/funpy/trig/eval.py
@@ -65,9 +65,9 @@ def horner_scl_real(x, c):
     # Get all negative indexed coefficients so that the constant is the first term
     n = ceil((N+1)/2)
     c = c[n-1::-1, :]
-    a = np.real(c)
-    b = np.imag(c)
-    b.flags.writeable = True
+    # never write into the coefficients of the function being evaluated
+    a = np.array(np.real(c))
+    b = np.array(np.imag(c))
 
     if np.remainder(N, 2) == 0:
         a[n-1] *= 0.5
@@ -96,8 +96,9 @@ def horner_vec_real(x, c):
     # Get all negative indexed coefficients so that the constant term is the first term
     n = ceil((N+1)/2)
     c = c[n-1::-1, :]
-    a = np.real(c)
-    b = np.imag(c)
+    # never write into the coefficients of the function being evaluated
+    a = np.array(np.real(c))
+    b = np.array(np.imag(c))
     e = np.ones((nValsX, 1))
 
     if np.remainder(N, 2) == 0:
-- 
2.43.0


From 2307517f9e3915e8754a02afbe8bf9524f431a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 005/133] fix: conjugate complex periodic functions (the
 realness test was inverted)

---
 funpy/trig/trigtech.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 34f0dce..8140746 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -550,16 +550,12 @@ def imag(trig):
 
 @implements(np.conj)
 def conj(trig):
-    id = ~trig.isReal
-    if np.all(id):
+    if trig.isreal:
         return trig
 
     # other wise construct a new trigtech
-    values = np.copy(trig.values)
-    coeffs = np.copy(trig.coeffs)
-    values[:, id] = np.conj(values[:, id])
-    coeffs[:, id] = np.flipud(np.conj(coeffs[:, id]))
-    return trigtech(values=values, coeffs=coeffs, ishappy=trig.ishappy,
+    values = np.conj(trig.values)
+    return trigtech(values=values, coeffs=vals2coeffs(values), ishappy=trig.ishappy,
                     simplify=False, isreal=trig.isReal)
 
 
-- 
2.43.0


From 0592e3fda081e02483a0c7e5f072117e98ad3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 006/133] fix: real part of a periodic function with negative
 real part is not zero

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 8140746..f68b73f 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -515,7 +515,7 @@ def real(trig):
         return trig
 
     fvalues = np.real(trig.values)
-    if np.all(fvalues < trig.eps):
+    if np.all(np.abs(fvalues) < trig.eps):
         nisReal = np.ones(trig.m).astype(bool)
         return trigtech(values=np.zeros_like(trig.values),
                         coeffs=np.zeros_like(trig.coeffs),
-- 
2.43.0


From 2a4fdfc0f60a758a1dc3e42187d17f54a2f5222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 007/133] fix: honour the minimum sample count when building
 periodic functions

---
 funpy/trig/trigtech.py | 3 ++-
 funpy/trig/ufuncs.py   | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index f68b73f..e35036f 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -67,7 +67,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 else:   # Assume that it's a lambda -> TODO check that
                     # TODO implement this for the other parts too
                     self.__check_callable(op)
-                    refine = Refine(op=op, strategy=kwargs.pop('resample', 'nested'))
+                    refine = Refine(op=op, minSamples=min(self.maxLength, kwargs.pop('minSamples', 9)),
+                                    strategy=kwargs.pop('resample', 'nested'))
                     self.populate(refine)
 
                 # check whether the function should be real or not ???
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 96d72f9..927e683 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -34,7 +34,11 @@ def power(x1, x2, **kwargs):
         return power(x2, x1)
 
     if isinstance(x2, Number):
-        return trigtech(op=lambda x: np.power(x1(x), x2), minSamples= 2* x1.n)
+        # an integer power has known degree -> never sample it more coarsely
+        n = 2 * x1.n
+        if x2 > 1 and float(x2).is_integer():
+            n = int(x2) * x1.n
+        return trigtech(op=lambda x: np.power(x1(x), x2), minSamples=n)
     else:
         return NotImplemented
 
-- 
2.43.0


From 0dd17b1b61e5ba5ccff1d8e3b31c0c10b7c306b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 008/133] fix: number/periodic and number**periodic no longer
 swap their operands

---
 funpy/trig/ufuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 927e683..498b8bc 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -31,7 +31,7 @@ def fabs(x, **kwargs):
 def power(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, Number):
-        return power(x2, x1)
+        return trigtech(op=lambda x: np.power(x1, x2(x)), minSamples=2 * x2.n)
 
     if isinstance(x2, Number):
         # an integer power has known degree -> never sample it more coarsely
@@ -312,7 +312,7 @@ def divide(x1, x2, **kwargs):
 def true_divide(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, (np.ndarray, Number)):
-        return divide(x2, x1, **kwargs)
+        return trigtech(op=lambda x: np.divide(x1, x2(x)), minSamples=2 * x2.n)
 
     out = kwargs.pop('out', None)
     if out is not None:
-- 
2.43.0


From 43cbe5e4323730558fc84973ce124bffd92648e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 009/133] fix: multiply a periodic function by itself or its
 conjugate

---
 funpy/trig/ufuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 498b8bc..78eea13 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -263,7 +263,7 @@ def multiply(x1, x2, **kwargs):
         # multiply values
         if x1 == x2:
             v = np.power(nvals, 2)
-            if x1.isreal():
+            if x1.isreal:
                 pos = True
 
         elif np.conj(x1) == x2:
@@ -287,7 +287,7 @@ def multiply(x1, x2, **kwargs):
             # when the product should be positive make sure it is after call to simplify
             v = np.abs(v)
             c = vals2coeffs(v)
-            is_real = np.ones((1, c.shape[1])).astype(bool)
+            is_real = np.ones(c.shape[1]).astype(bool)
         else:
             is_real = x1.isreal and x2.isreal
 
-- 
2.43.0


From c60d4838a44c7b5ad8059237431b641686265194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 010/133] fix: sample periodic functions at no fewer than 9
 points

---
 funpy/trig/refine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/refine.py b/funpy/trig/refine.py
index 7076e0b..d1198ed 100644
--- a/funpy/trig/refine.py
+++ b/funpy/trig/refine.py
@@ -14,7 +14,7 @@ def expand(array, axis=1):
 """ Base class for resampling and refining operations  """
 class RefineBase(object):
     def __init__(self, op, *args, **kwargs):
-        self.minSamples = kwargs.pop('minSamples', 9)
+        self.minSamples = max(9, kwargs.pop('minSamples', 9))
         self.op = op
         self.strategy = kwargs.pop('strategy', 'nested')
         self.values = np.zeros((0,0), dtype='complex', order='F')
-- 
2.43.0


From dca3a441bc6ce57b8933f55ad40aade911d9fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 011/133] fix: products of periodic functions with even lengths
 keep their highest mode

---
 funpy/trig/ufuncs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 78eea13..f6897cf 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -240,8 +240,10 @@ def multiply(x1, x2, **kwargs):
         fn, fm = x1.shape
         gn, gm = x2.shape
 
-        # prolong
-        ncoeffs, nvals = prolong(x1.coeffs, fn + gn - 1, x1.isReal)
+        # the unpaired mode of an even length stands for a pair of modes, thus the
+        # product of functions with fn and gn modes has at most this many modes.
+        nmodes = (fn | 1) + (gn | 1) - 1
+        ncoeffs, nvals = prolong(x1.coeffs, nmodes, x1.isReal)
 
         # check dimensions
         if fm != gm:
@@ -270,7 +272,7 @@ def multiply(x1, x2, **kwargs):
             v = np.conj(nvals) * nvals
             pos = True
         else:
-            gcoeffs, gvals = prolong(x2.coeffs, fn + gn - 1, x2.isReal)
+            gcoeffs, gvals = prolong(x2.coeffs, nmodes, x2.isReal)
             v = nvals * gvals
 
         # Compute values and coefficients of result
-- 
2.43.0


From 101f1b516884ed3c23847aecbdee496af306a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 012/133] fix: multiplying periodic functions column by column
 no longer rewrites the operands

---
 funpy/trig/ufuncs.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index f6897cf..b2deeac 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -195,23 +195,20 @@ def multiply(x1, x2, **kwargs):
             x2 = np.expand_dims(x2, axis=1)
 
         # Otherwise the shape of the ndarray must be the same as
-        # for the coefficients
-        assert x1.shape == x2.shape, 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
-
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = x1.coeffs
-            v = x1.values
+        # for the coefficients, or it must be a row with one constant per column
+        assert x1.shape == x2.shape or x2.shape == (1, x1.m), 'Shape %s and %s mismatch!' % (x1.shape, x2.shape)
 
         # multiply the coefficients
-        c *= x2
-        v *= x2
+        c = np.asfortranarray(x1.coeffs * x2)
+        v = coeffs2vals(c)
 
-        is_real = x1.isreal and np.isreal(x2)
+        is_real = x1.isreal and np.all(np.isreal(x2))
         ishappy = x1.ishappy
 
+        if out is not None:
+            out[0].coeffs = c
+            out[0].values = v
+
     # If one of the arguments is a chebtech -> map everything to a chebtech and then map back!
     elif isinstance(x1, chebtech) or isinstance(x2, chebtech):
         x1_cheb = chebtech(op=lambda x: x1.feval(x))
@@ -251,11 +248,8 @@ def multiply(x1, x2, **kwargs):
                 # Allow [inf x 1] .* [Inf x m]
                 nvals = np.tile(nvals, (1, gm))
                 ncoeffs = np.tile(ncoeffs, (1, gm))
-            elif gm == 1:
-                # Allow [inf x m] .* [Inf x 1]
-                x2.values = np.tile(x2.values, (1, fm))
-                x2.coeffs = np.tile(x2.coeffs, (1, fm))
-            else:
+            # [inf x m] .* [Inf x 1] is left to broadcasting, x2 must not change
+            elif gm != 1:
                 assert False, 'Inner matrix dimensions must agree!'
 
         # check for two cases where the output is known in advance to be
-- 
2.43.0


From 46b1ece7857bd03702ca698e7f688e44db2e76e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 013/133] fix: add one constant per column to periodic
 functions

---
 funpy/trig/ufuncs.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index b2deeac..5a357ee 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -57,15 +57,17 @@ def add(x1, x2, **kwargs):
             c = np.copy(x1.coeffs, order='F')
             v = np.copy(x1.values, order='F')
 
-        other = np.asanyarray(x2, order='F')
+        # one constant per column
+        other = np.asanyarray(x2).ravel()
+
+        # a single column plus several constants gives several columns
+        if out is None and other.size > 1 and x1.m == 1:
+            c = np.tile(c, (1, other.size))
+            v = np.tile(v, (1, other.size))
 
         # simply add to the values
         v += other
 
-        # Update coefficients
-        if other.shape and other.shape[1] > 1 and x1.m == 1:
-            c = np.tile(x1.coeffs, (1, other.shape[1]))
-
         n = x1.n
         # determine index of constant coefficient term
         if n & 1:
@@ -77,7 +79,7 @@ def add(x1, x2, **kwargs):
 
         # update is real
         # TODO FIX THE EPS HERE!
-        is_real = x1.isReal & np.all(np.imag(other) < 1e-14)
+        is_real = x1.isReal & np.all(np.abs(np.imag(other)) < 1e-14)
 
         # Don't I need to do this?
         ishappy = x1.ishappy
-- 
2.43.0


From 457d8d061eb756afcd67b674fb918d79de3ade31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 014/133] fix: in-place products and quotients of periodic
 functions update whether the result is real

---
 funpy/trig/ufuncs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 5a357ee..cf52559 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -299,6 +299,7 @@ def multiply(x1, x2, **kwargs):
         out[0].ishappy = ishappy
         out[0].coeffs = c
         out[0].values = v
+        out[0].isReal = out[0].get_isreal(out[0].get_vscale())
         return out[0]
     else:
         return trigtech(values=v, coeffs=c, simplify=True,
@@ -337,13 +338,14 @@ def true_divide(x1, x2, **kwargs):
         if out is not None:
             out[0].values = fun.values
             out[0].coeffs = fun.coeffs
+            out[0].isReal = fun.isReal
             return out[0]
         return fun
     else:
         return NotImplemented
 
     if out is not None:
-        # out[0].values = v
+        out[0].isReal = out[0].get_isreal(out[0].get_vscale())
         return out[0]
     else:
         return trigtech(coeffs=c, values=v, ishappy=x1.ishappy, isreal=x1.isReal)
-- 
2.43.0


From a0b7ea96951a45cd94fcfa6d18e2c0334566a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 015/133] fix: multiply a constant periodic function in place

The output argument was dropped when the operands were swapped, so f *= g left a
constant f unchanged.
---
 funpy/trig/ufuncs.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index cf52559..4fed4fa 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -170,20 +170,11 @@ def multiply(x1, x2, **kwargs):
     if isinstance(x1, (np.ndarray, Number)):
         return multiply(x2, x1, **kwargs)
 
-    out = kwargs.pop('out', None)
+    out = kwargs.get('out', None)
     if isinstance(x2, Number):
-        # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            # FIXME???
-            c = np.copy(x1.coeffs, order='F').astype(complex)
-            v = np.copy(x1.values, order='F').astype(complex)
-
-        # update coefficients
-        c *= x2
-        v *= x2
+        # the operands may have been swapped, thus never scale the output in place
+        c = np.asfortranarray(x1.coeffs * x2).astype(complex)
+        v = np.asfortranarray(x1.values * x2).astype(complex)
 
         # update the is real number
         is_real = x1.isreal and np.isreal(x2)
@@ -207,10 +198,6 @@ def multiply(x1, x2, **kwargs):
         is_real = x1.isreal and np.all(np.isreal(x2))
         ishappy = x1.ishappy
 
-        if out is not None:
-            out[0].coeffs = c
-            out[0].values = v
-
     # If one of the arguments is a chebtech -> map everything to a chebtech and then map back!
     elif isinstance(x1, chebtech) or isinstance(x2, chebtech):
         x1_cheb = chebtech(op=lambda x: x1.feval(x))
@@ -228,13 +215,6 @@ def multiply(x1, x2, **kwargs):
         elif x2.n == 1:  # x2 is a constant function
             return multiply(x1, x2.coeffs, **kwargs)
 
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            v = np.copy(x1.values, order='F')
-
         # Get the shapes
         fn, fm = x1.shape
         gn, gm = x2.shape
-- 
2.43.0


From 04576633d50631aa3d508c94213c3e912c27e87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 016/133] fix: deep copies keep the scale, happiness and
 realness of a function

---
 funpy/cheb/chebtech.py |  2 +-
 funpy/trig/trigtech.py | 10 +++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 553f80d..513c24a 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -87,7 +87,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         if _copy is None:
             _copy = type(self)(
                 coeffs=deepcopy(self.coeffs),
-                eps=self.eps, hscale=self.eps,
+                eps=self.eps, hscale=self.hscale,
                 maxLength=self.maxLength,
                 simplify=False,
                 ishappy=self.ishappy)
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index e35036f..1e59fe0 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -110,14 +110,10 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         id_self = id(self)
         _copy = memo.get(id_self)
         if _copy is None:
-            _copy = type(self)(
-                coeffs=deepcopy(self.coeffs),
-                values=deepcopy(self.values),
-                eps=self.eps, hscale=self.eps,
-                maxLength=self.maxLength,
-                ishappy=self.ishappy,
-                isreal=self.isReal)
+            _copy = type(self).__new__(type(self))
             memo[id_self] = _copy
+            for name, value in self.__dict__.items():
+                setattr(_copy, name, deepcopy(value, memo))
         return _copy
 
     def __repr__(self):
-- 
2.43.0


From aa2081615e971fb7680a2ea46ca74f412c6ef3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 017/133] fix: +f, f**1, real, conj and roll by zero return a
 new function; np.copy of periodic functions

---
 funpy/cheb/ufuncs.pyx    | 4 ++--
 funpy/trig/operations.py | 2 +-
 funpy/trig/trigtech.py   | 8 ++++++--
 funpy/trig/ufuncs.py     | 2 +-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 930e0d8..708846f 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -26,7 +26,7 @@ def negative(x, **kwargs):
                        maxLength=x.maxLength, ishappy=x.ishappy)
 
 def positive(x, **kwargs):
-    return x
+    return np.copy(x)
 
 def absolute(x, **kwargs):
     return chebtech(op=lambda y: np.abs(x(y)), minSamples=x.n,
@@ -40,7 +40,7 @@ def power(x1, x2, **kwargs):
     if isinstance(x2, Number):
         # Do nothing just return the function
         if x2 == 1.0:
-            return x1
+            return np.copy(x1)
         # an integer power is a polynomial of known degree -> never sample it more coarsely
         n = x1.n
         if x2 > 1 and float(x2).is_integer():
diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index 5bc1cb3..b223594 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -19,7 +19,7 @@ def circshift(f, a):
 
     # The trivial case
     if a == 0:
-        return f
+        return np.copy(f)
 
     # These interpolations are defined on the interval [0, 2*pi), but we want them on
     # (-pi, pi). To fix the coefficients for this we just need to assign
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 1e59fe0..244e5af 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -505,11 +505,15 @@ def argmax(f):
     return np.argmax(f.coeffs)
 
 
+@implements(np.copy)
+def copy(trig):
+    return deepcopy(trig)
+
 @implements(np.real)
 def real(trig):
     """ Returns real part of a trigtech """
     if trig.isreal:
-        return trig
+        return copy(trig)
 
     fvalues = np.real(trig.values)
     if np.all(np.abs(fvalues) < trig.eps):
@@ -548,7 +552,7 @@ def imag(trig):
 @implements(np.conj)
 def conj(trig):
     if trig.isreal:
-        return trig
+        return copy(trig)
 
     # other wise construct a new trigtech
     values = np.conj(trig.values)
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 4fed4fa..363cbd0 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -21,7 +21,7 @@ def negative(x, **kwargs):
                         simplify=False, ishappy=x.ishappy)
 
 def positive(x, **kwargs):
-    return x
+    return np.copy(x)
 
 def fabs(x, **kwargs):
     abs_values = np.abs(x.get_values())
-- 
2.43.0


From d9c4d0f1002e09691cd3654b7972bba6c2a0c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 018/133] fix: in-place addition never lengthens the other
 operand

---
 funpy/cheb/ufuncs.pyx | 27 +++++++--------------
 funpy/trig/ufuncs.py  | 55 ++++++++++++-------------------------------
 2 files changed, 24 insertions(+), 58 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 708846f..7776d69 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -57,10 +57,7 @@ def add(x1, x2, **kwargs):
     out = kwargs.get('out', None)
     if isinstance(x2, Number) or isinstance(x2, np.ndarray):
         # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-        else:
-            c = np.copy(x1.coeffs, order='F')
+        c = np.copy(x1.coeffs, order='F')
 
         other = np.asanyarray(x2, order='F')
 
@@ -88,20 +85,13 @@ def add(x1, x2, **kwargs):
         nf = x1.n
         no = x2.n
 
-        if out is not None:
-            if nf > no:
-                x2.prolong(nf)
-            elif nf < no:
-                x1.prolong(no)
-            c = out[0].coeffs
-            oc = x2.coeffs
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            oc = x2.coeffs
-            if nf > no:
-                oc = detail.prolong(oc, nf)
-            elif nf < no:
-                c = detail.prolong(c, no)
+        # never change the operands, not even their length
+        c = np.copy(x1.coeffs, order='F')
+        oc = x2.coeffs
+        if nf > no:
+            oc = detail.prolong(oc, nf)
+        elif nf < no:
+            c = detail.prolong(c, no)
 
         # update values and coefficients
         c += oc
@@ -123,6 +113,7 @@ def add(x1, x2, **kwargs):
 
     # Create the new function
     if out is not None:
+        out[0].coeffs = c
         out[0].ishappy = ishappy
         out[0].eps = eps
         return out[0]
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 363cbd0..0ff49fc 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -50,12 +50,8 @@ def add(x1, x2, **kwargs):
     out = kwargs.pop('out', None)
     if isinstance(x2, Number) or isinstance(x2, np.ndarray):
         # get the coefficients of x1
-        if out is not None:
-            c = out[0].coeffs
-            v = out[0].values
-        else:
-            c = np.copy(x1.coeffs, order='F')
-            v = np.copy(x1.values, order='F')
+        c = np.copy(x1.coeffs, order='F')
+        v = np.copy(x1.values, order='F')
 
         # one constant per column
         other = np.asanyarray(x2).ravel()
@@ -95,39 +91,19 @@ def add(x1, x2, **kwargs):
         nf = x1.n
         no = x2.n
 
-        if out is not None:
-            if nf > no:
-                x2.prolong(nf)
-            elif nf < no:
-                x1.prolong(no)
-
-            c = out[0].coeffs
-            v = out[0].values
-            # print('out!')
-            # print('v = ', v.dtype, ' out = ', out[0].values.dtype)
-
-            oc = x2.coeffs
-            ov = x2.values
-        else:
-            # FIXME - I shouldn't need any of these silly type conversions!
-            c = np.copy(x1.coeffs, order='F').astype(complex)
-            v = np.copy(x1.values, order='F').astype(complex)
-
-            oc = x2.coeffs
-            ov = x2.values
-            if nf > no:
-                oc, ov = prolong(oc, nf, x2.isReal)
-            elif nf < no:
-                c, v = prolong(c, no, x1.isReal)
+        # never change the operands, not even their length
+        # FIXME - I shouldn't need any of these silly type conversions!
+        c = np.copy(x1.coeffs, order='F').astype(complex)
+        v = np.copy(x1.values, order='F').astype(complex)
 
-            # print('not out!')
+        oc = x2.coeffs
+        ov = x2.values
+        if nf > no:
+            oc, ov = prolong(oc, nf, x2.isReal)
+        elif nf < no:
+            c, v = prolong(c, no, x1.isReal)
 
         # Get the new values
-        # print('out = ', out)
-        # if out is not None:
-        #     print('out = ', out[0].values.dtype)
-        # print('ov=', ov.dtype)
-        # print('v=', v.dtype)
         v += ov
 
         # update is real
@@ -137,10 +113,7 @@ def add(x1, x2, **kwargs):
         v[:, is_real] = np.real(v[:, is_real])
 
         # update the coefficients
-        if out is not None:
-            out[0].coeffs = vals2coeffs(v)
-        else:
-            c = vals2coeffs(v)
+        c = vals2coeffs(v)
 
         # Look for zero output - TODO check that i don't do this before updating c!
         if ~np.any(v) or ~np.any(c):
@@ -156,6 +129,8 @@ def add(x1, x2, **kwargs):
 
     # Create the new function
     if out is not None:
+        out[0].coeffs = np.asarray(c, dtype=complex)
+        out[0].values = np.asarray(v, dtype=complex)
         out[0].ishappy = ishappy
         out[0].isReal = is_real
         return out[0]
-- 
2.43.0


From 78baf6981aa19e6c626a76d67733d9255c4bf35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 019/133] fix: composing functions no longer changes the length
 of the operands

---
 funpy/cheb/refine.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index 55919e5..d2601ea 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -127,8 +127,7 @@ class RefineCompose1(RefineBase):
             return self.values, giveUp
 
         # update f-values
-        self.f.prolong(n)
-        v1 = polyval(self.f.coeffs)
+        v1 = polyval(self.f.prolong_coeffs(n))
 
         # compute the new values
         self.values = self.op(v1)
@@ -147,8 +146,7 @@ class RefineCompose1(RefineBase):
                 giveUp = False
 
             # check that n is too large
-            self.f.prolong(n)
-            fvalues = polyval(self.f.coeffs)
+            fvalues = polyval(self.f.prolong_coeffs(n))
             v1 = fvalues[1:-1:2, :]
 
             # shift the values
@@ -175,10 +173,8 @@ class RefineCompose2(RefineBase):
             return self.values, giveUp
 
         # update f-values
-        self.f.prolong(n)
-        v1 = polyval(self.f.coeffs)
-        self.g.prolong(n)
-        v2 = polyval(self.g.coeffs)
+        v1 = polyval(self.f.prolong_coeffs(n))
+        v2 = polyval(self.g.prolong_coeffs(n))
 
         # compute the new values
         self.values = self.op(v1, v2)
@@ -197,11 +193,9 @@ class RefineCompose2(RefineBase):
                 giveUp = False
 
             # check that n is too large
-            self.f.prolong(n)
-            fvalues = polyval(self.f.coeffs)
+            fvalues = polyval(self.f.prolong_coeffs(n))
             v1 = fvalues[1:-1:2, :]
-            self.g.prolong(n)
-            gvalues = polyval(self.g.coeffs)
+            gvalues = polyval(self.g.prolong_coeffs(n))
             v2 = gvalues[1:-1:2, :]
 
             # shift the values
-- 
2.43.0


From 67425c42398d16505d89232485b79e09a74b2acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 020/133] fix: QR of function columns no longer changes the
 length of its operand

---
 funpy/cheb/qr.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index deb0f5f..a59c4f4 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -5,7 +5,7 @@ import numpy as np
 import scipy.linalg as LA
 
 from .pts import chebpts
-from .detail import polyfit
+from .detail import polyfit, polyval
 
 from ..qr import abstractQR
 
@@ -30,8 +30,7 @@ def qr(f, eps=1.48e-8):
     # make discrete analog of f
     newN = 2 * max(n, m)
     # get values?
-    f.prolong(newN)
-    A = f.values
+    A = polyval(f.prolong_coeffs(newN))
 
     # Get the chebyshev points
     x, w, _, _ = chebpts(newN)
-- 
2.43.0


From 18b2c9ae91acab7f9e68bdd1fdb42c40b1fb7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 021/133] fix: convolution and adhesion no longer change the
 length of their operands

---
 funpy/trig/operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index b223594..cbc8dd5 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -59,9 +59,9 @@ def circconv(f, g, domain):
 
     # Make sure the trigtech objects have the same underlying size
     if nf > ng:
-        g.prolong(nf)
+        g = np.copy(g).prolong(nf)
     elif nf < ng:
-        f.prolong(ng)
+        f = np.copy(f).prolong(ng)
     n = f.n
 
     # Convolution is just multiplication of the Fourier coefficients.
@@ -91,9 +91,9 @@ def trig_adhesion(f, g, domain):
 
     # Make sure the trigtech objects have the same underlying size
     if nf > ng:
-        g.prolong(nf)
+        g = np.copy(g).prolong(nf)
     elif nf < ng:
-        f.prolong(ng)
+        f = np.copy(f).prolong(ng)
 
     ncoeffs = f.coeffs * g.coeffs
     nvalues = coeffs2vals(ncoeffs)
-- 
2.43.0


From 6cf2a54c674a2c11ed231de405cbe834889fd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 022/133] fix: selected columns no longer share storage with
 the function they come from

---
 funpy/cheb/chebtech.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 513c24a..6efdf41 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -219,7 +219,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             if idx.start < 0 or idx.stop > self.m:
                 raise IndexError("The index slice({0:d}, {1:d}) is out of range ({2:d})!".format(idx.start, idx.stop, self.m))
 
-            return chebtech(coeffs=self.coeffs[:, idx], eps=self.eps,
+            return chebtech(coeffs=np.array(self.coeffs[:, idx], order='F'), eps=self.eps,
                            maxLength=self.maxLength, simplify=False,
                            ishappy=self.ishappy)
 
@@ -227,7 +227,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             if idx < 0 or idx >= self.m:
                 raise IndexError("The index {0:d} is out of range ({1:d})!".format(idx, self.m))
 
-            return chebtech(coeffs=self.coeffs[:, None, idx], eps=self.eps,
+            return chebtech(coeffs=np.array(self.coeffs[:, None, idx], order='F'), eps=self.eps,
                            maxLength=self.maxLength, simplify=False,
                            ishappy=self.ishappy)
         else:
-- 
2.43.0


From 6c588f41ff805a69168e0e058f344baa80b541b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 023/133] fix: integrating a periodic function no longer
 rewrites its coefficients

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 244e5af..dc67d37 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -616,7 +616,7 @@ def cumsum(f, m=1, **kwargs):
         b_k = c_k / (i pi k).
 
     """
-    c = f.coeffs
+    c = np.copy(f.coeffs)
     n = f.n
     isEven = np.remainder(n, 2) == 0
 
-- 
2.43.0


From 6552383019ec72d7f54f808ee642aef016567085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 024/133] fix: roots, restriction to the whole interval, sample
 points and prolonged coefficients do not share with or change the function

---
 funpy/cheb/chebtech.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 6efdf41..e92ea6d 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -243,7 +243,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
     """ Return the points at which the chebtech is sampled at """
     @property
     def x(self):
-        return chebpts_type2_compute(self.n)
+        # the points are cached, never hand out the cached array
+        return np.copy(chebpts_type2_compute(self.n))
 
     @property
     def values(self):
@@ -304,7 +305,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             assert False, 'Not a valid interval'
         elif s.size == 2 and np.all(s == np.asarray([-1, 1])):
             # nothing to do here
-            return self
+            return copy(self)
 
         n, m = self.shape
         numInts = s.size - 1
@@ -334,7 +335,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
     def prolong_coeffs(self, Nout):
         # TODO fix the endless duplication of this code-path!
         """ Return the prolonged coefficients only """
-        return np.asarray(prolong(self.coeffs, Nout), order='F')
+        return np.array(prolong(self.coeffs, Nout), order='F')
 
     def simplify(self, eps=None, force=False):
         # if not happy simply do nothing
@@ -397,8 +398,7 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def roots(self, *args, **kwargs):
         # If we don't simplify this may lead to crashes!
-        self.simplify()
-        return roots(self, eps=self.eps)
+        return roots(copy(self).simplify(), eps=self.eps)
 
     def minandmax(self, *args, **kwargs):
         fp = np.diff(self)
-- 
2.43.0


From 1d926f400ecb4b356278ae036cc48262755ba116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 025/133] fix: lengthening an even number of modes by one
 returns that many modes

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index dc67d37..bddc779 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -450,7 +450,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             c = np.copy(self.coeffs, order='F')
 
         if Nin == Nout:
-            c = self.coeffs
+            pass
 
         # Pad with zeros
         elif Nout > Nin:
-- 
2.43.0


From 117b5a8ccb3e85932065d2177a67158fde696f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 026/133] fix: turning a function into a functional leaves the
 function alone

---
 funpy/functional.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/functional.py b/funpy/functional.py
index 75f07c7..2659ea5 100644
--- a/funpy/functional.py
+++ b/funpy/functional.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 import numpy as np
+from copy import deepcopy
 
 from .cheb import polyval
 from .cheb import quadwts
@@ -19,10 +20,11 @@ class Functional:
 
         n = kwargs.pop('n', None)
         if n is not None:
-            function = function.prolong(n)
+            # work on a copy, the function belongs to the caller
+            function = deepcopy(function).prolong(n)
 
         if weighted:
-            self.coeffs = np.asarray(function)
+            self.coeffs = np.array(function)
             self.coeffs[0] *= np.pi
             self.coeffs[1:] *= 0.5 * np.pi
 
-- 
2.43.0


From a825476ca5282450ca37396f050ced91e486a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 027/133] fix: chebpts hands out copies of its cached points
 and weights

---
 funpy/cheb/pts.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index d62bfa0..32af73a 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -126,7 +126,8 @@ def chebpts_type1(N, interval=None):
         # angles
         t = np.pi * np.flip(np.arange(0, N, 1)) / (N - 1)
 
-    return np.asarray(x), np.asarray(w), np.asarray(v), np.asarray(t)
+    # the points and weights are cached, thus only ever hand out copies
+    return np.array(x, dtype=float), np.array(w, dtype=float), np.array(v, dtype=float), np.array(t, dtype=float)
 
 
 """ Functions to compute everything associated with type-2 points """
@@ -159,7 +160,8 @@ def chebpts_type2(N, interval=None):
         # angles
         t = np.pi * np.flip(np.arange(0, N, 1)) / (N - 1)
 
-    return np.asarray(x), np.asarray(w), np.asarray(v), np.asarray(t)
+    # the points and weights are cached, thus only ever hand out copies
+    return np.array(x, dtype=float), np.array(w, dtype=float), np.array(v, dtype=float), np.array(t, dtype=float)
 
 
 def chebpts(N, interval=[-1,1], type=2):
-- 
2.43.0


From 709c08f1b278a0de37f2e013480c796157e68a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 028/133] fix: one Chebyshev point is the midpoint of the
 interval

---
 funpy/cheb/pts.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index 32af73a..199580a 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -108,6 +108,9 @@ def chebpts_type1(N, interval=None):
         w = [2]
         v = [1]
         t = [0.5 * np.pi]
+        if interval is not None:
+            x = scaleNodes(np.asarray(x), interval)
+            w = scaleWeights(np.asarray(w), interval)
     else: # general case
         x = chebpts_type1_compute(N)
 
@@ -143,6 +146,9 @@ def chebpts_type2(N, interval=None):
         w = [2]
         v = [1]
         t = [0.5 * np.pi]
+        if interval is not None:
+            x = scaleNodes(np.asarray(x), interval)
+            w = scaleWeights(np.asarray(w), interval)
     else: # general case
         x = chebpts_type2_compute(N)
 
-- 
2.43.0


From 67bddecb9228710e089e2955c99706c2146580cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 029/133] fix: weights and angles of the Chebyshev points of
 the first kind belong to these points

---
 funpy/cheb/pts.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/funpy/cheb/pts.py b/funpy/cheb/pts.py
index 199580a..7b2877f 100644
--- a/funpy/cheb/pts.py
+++ b/funpy/cheb/pts.py
@@ -118,16 +118,18 @@ def chebpts_type1(N, interval=None):
         if interval is not None:
             x = scaleNodes(x, interval)
 
-        # quadrature weights
-        w = quadwts(N)
+        # angles
+        t = np.pi * np.flip(2 * np.arange(0, N, 1) + 1) / (2. * N)
+
+        # quadrature weights (Fejer's first rule)
+        k = np.arange(1, N // 2 + 1)
+        w = 2. / N * (1. - 2. * np.cos(2. * np.outer(t, k)) @ (1. / (4. * k**2 - 1.)))
         if interval is not None:
             w = scaleWeights(w, interval)
 
         # barycentric weights
-        v = bary_weights(N)
-
-        # angles
-        t = np.pi * np.flip(np.arange(0, N, 1)) / (N - 1)
+        v = np.sin(t)
+        v[-2::-2] *= -1
 
     # the points and weights are cached, thus only ever hand out copies
     return np.array(x, dtype=float), np.array(w, dtype=float), np.array(v, dtype=float), np.array(t, dtype=float)
-- 
2.43.0


From a7273cfb2c349c4e45609744e4e8a870406500c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 030/133] fix: build periodic functions from their values

---
 funpy/trig/trigtech.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index bddc779..bcae59c 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -106,6 +106,10 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         else:
             assert False, 'Don\'t know what to do with this!'
 
+    @classmethod
+    def from_values(cls, values, *args, **kwargs):
+        return cls(values=np.asfortranarray(values), *args, **kwargs)
+
     def __deepcopy__(self, memo):
         id_self = id(self)
         _copy = memo.get(id_self)
-- 
2.43.0


From 1ce29d5f2064c81aa798f465570b7048233f3a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 031/133] fix: judge the resolution of periodic functions by
 all wave numbers

---
 funpy/trig/trigtech.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index bcae59c..b3c2624 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -333,15 +333,13 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         ishappy = np.zeros(m).astype(bool)
         cutoff = np.zeros(m).astype(int)
         for k in range(m):
-            # FIXME!
-            cutoff[k] = standardChopCmplx(np.asfortranarray(self.coeffs[:, k]), tol[k])
+            # chop the series folded by wave number, every wave number but zero appears twice
+            cutoff[k] = standardChopCmplx(np.asfortranarray(coeffs[:, k], dtype=complex), tol[k])
             # check if happy - TODO: check this for numpy adaptation
             ishappy[k] = (cutoff[k] < n)
 
-            if np.remainder(cutoff[k], 2) == 0:
-                cutoff[k] = cutoff[k]//2
-            else:
-                cutoff[k] = (cutoff[k]-1)//2
+            # cutoff is the last index to keep, the highest wave number to keep is
+            cutoff[k] = (cutoff[k] + 1)//2
 
             # exit if any column is unhappy
             if not ishappy[k]:
-- 
2.43.0


From 1f1cec710032abe4a17a7ad73091fce990a35e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 032/133] fix: simplifying periodic functions keeps the highest
 significant mode

---
 funpy/trig/trig_simplify.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/funpy/trig/trig_simplify.py b/funpy/trig/trig_simplify.py
index ee2a2bd..4f9f28d 100644
--- a/funpy/trig/trig_simplify.py
+++ b/funpy/trig/trig_simplify.py
@@ -83,17 +83,15 @@ def simplify_coeffs(coeffs, isReal, eps=1e-14):
     abs_coeffs = np.asfortranarray(abs_coeffs)
 
     # loop through columns to compute cutoff
-    cutoff = 1
+    cutoff = 0
     for k in range(m):
         cutoff = max(cutoff, standardChopCmplx(abs_coeffs[:, k], tol[k]))
 
     # take the minimum cutoff.
     cutoff = min(cutoff, nold)
 
-    if np.remainder(cutoff, 2) == 0:
-        cutoff = cutoff//2 + 1
-    else:
-        cutoff = (cutoff-1)//2 + 1
+    # cutoff is the last index to keep, where every wave number but zero appears twice
+    cutoff = (cutoff + 1)//2 + 1
 
     # put the coefficient vector back together
     if isEven:
-- 
2.43.0


From 331a124cfb448946ba16175cbf268d84fc935f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 033/133] fix: sample at least once when the requested
 resolution exceeds the limit

---
 funpy/cheb/refine.py   | 2 +-
 funpy/trig/refine.py   | 2 +-
 funpy/trig/trigtech.py | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index d2601ea..b223600 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -47,7 +47,7 @@ class RefineBase:
                 n = 2**(np.floor(pow) + 1) + 1
 
         if n > f.maxLength:
-            if self.values is None:
+            if self.values.size == 0:
                 n = f.maxLength
                 giveUp = False
             else:
diff --git a/funpy/trig/refine.py b/funpy/trig/refine.py
index d1198ed..a4bf267 100644
--- a/funpy/trig/refine.py
+++ b/funpy/trig/refine.py
@@ -34,7 +34,7 @@ class RefineBase(object):
                 n = 2**(np.floor(pow) + 1)
 
         if n > f.maxLength:
-            if self.values is None:
+            if self.values.size == 0:
                 n = f.maxLength
                 giveUp = False
             else:
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index b3c2624..225838c 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -370,6 +370,7 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     """ Construct a chebtech from a callable op """
     def populate(self, refine):
+        ishappy = False
         while True:
             self.values, giveUp = refine(self)
             if giveUp:
-- 
2.43.0


From b045b6757ff8c2a1982ec5bbaf287f50fb382aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 034/133] fix: resolve functions of large scale to the same
 relative accuracy

---
 funpy/cheb/chebtech.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index e92ea6d..d673219 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -252,7 +252,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     def happy(self, eps=None):
         eps = self.eps if eps is None else eps
-        tol = np.maximum(self.hscale, self.vscale) * eps * np.ones(self.m)
+        # coefficients are chopped relative to the largest one, thus relative to the vertical scale
+        tol = np.maximum(self.hscale, 1) * eps * np.ones(self.m)
         self.ishappy, cutoff = happiness_check(self.coeffs, tol)
         # cutoff is the last entry to keep -> increment by one.
         return bool(self.ishappy), cutoff+1
-- 
2.43.0


From 6be60cbae1426d8a7e3b97dd0c30a0adfa2bc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 035/133] fix: compare adaptively built functions with the
 callable between the sample points

---
 funpy/cheb/chebtech.py |  4 ++++
 funpy/cheb/refine.py   | 18 ++++++++++++++++++
 funpy/trig/refine.py   |  8 ++++++++
 funpy/trig/trigtech.py |  4 ++++
 4 files changed, 34 insertions(+)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index d673219..b75033d 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -279,6 +279,10 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
             # check happiness
             ishappy, cutoff = self.happy()
 
+            # a function that is not met between the sample points was aliased
+            if ishappy and not refine.sample_test(self):
+                self.ishappy = ishappy = False
+
             if ishappy:
                 self.prolong(cutoff+1)
                 break
diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index b223600..eabc71b 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -34,6 +34,18 @@ class RefineBase:
     def __call__(self, target):
         return self._call(target)
 
+    """ Evaluate what is being resolved at x """
+    def evaluate(self, x):
+        return self.op(x)
+
+    """ Check the resolved function between its sample points to detect aliasing """
+    def sample_test(self, target):
+        x = np.array([-0.357998918959666, 0.036785641195074])
+        want = np.real(self.evaluate(x)).reshape((x.size, -1))
+        have = target.feval(x).reshape((x.size, -1))
+        scale = np.maximum(np.max(np.abs(self.values), axis=0), np.max(np.abs(want), axis=0))
+        return bool(np.all(np.abs(want - have) <= np.sqrt(max(target.eps, np.finfo(float).eps)) * scale))
+
     """ Guess the next domain size to use """
     def get_n(self, f):
         if f.size == 0:
@@ -120,6 +132,9 @@ class RefineCompose1(RefineBase):
         self.f = f
         self._call = self.__nested
 
+    def evaluate(self, x):
+        return self.op(self.f.feval(x).reshape((x.size, -1)))
+
     def __resample(self, target):
         n, giveUp = self.get_n(target)
 
@@ -167,6 +182,9 @@ class RefineCompose2(RefineBase):
         self.g = g
         self._call = self.__nested
 
+    def evaluate(self, x):
+        return self.op(self.f.feval(x).reshape((x.size, -1)), self.g.feval(x).reshape((x.size, -1)))
+
     def __resample(self, target):
         n, giveUp = self.get_n(target)
         if giveUp:
diff --git a/funpy/trig/refine.py b/funpy/trig/refine.py
index a4bf267..58cf46a 100644
--- a/funpy/trig/refine.py
+++ b/funpy/trig/refine.py
@@ -22,6 +22,14 @@ class RefineBase(object):
     def __call__(self, target):
         return self._call(target)
 
+    """ Check the resolved function between its sample points to detect aliasing """
+    def sample_test(self, target):
+        x = np.array([-0.357998918959666, 0.036785641195074])
+        want = np.asarray(self.op(x)).reshape((x.size, -1))
+        have = target.feval(x).reshape((x.size, -1))
+        scale = np.maximum(np.max(np.abs(self.values), axis=0), np.max(np.abs(want), axis=0))
+        return bool(np.all(np.abs(want - have) <= np.sqrt(max(target.eps, np.finfo(float).eps)) * scale))
+
     """ Guess the next domain size to use """
     def get_n(self, f):
         if f.size == 0:
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 225838c..83a91c0 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -388,6 +388,10 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
             # check happiness
             ishappy, cutoff = self.happy()
 
+            # a function that is not met between the sample points was aliased
+            if ishappy and not refine.sample_test(self):
+                self.ishappy = ishappy = False
+
             if ishappy:
                 self.prolong(cutoff)
                 break
-- 
2.43.0


From 86e033498bcc43a2e56d9b4e0c95a029502691c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 036/133] fix: normalise the coefficient envelope by its first
 entry before chopping

---
 funpy/cheb/detail.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 7860fd6..3ee1977 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -245,8 +245,9 @@ cpdef standardChop(double[::1] coeffs, double tol, Py_ssize_t minimum=17):
         return cutoff
 
     # normalize - envelop function
+    abs_value = envelop[0]
     for j in range(n):
-        envelop[j] /= envelop[0]
+        envelop[j] /= abs_value
 
     # Step 2: Scan the envelope for a value PLAEAUPOINT.
     for j in range(1, n):
@@ -333,8 +334,9 @@ cpdef standardChopCmplx(complex[::1] coeffs, double tol, Py_ssize_t minimum=17):
         return cutoff
 
     # normalize - envelop function
+    abs_value = envelop[0]
     for j in range(n):
-        envelop[j] /= envelop[0]
+        envelop[j] /= abs_value
 
     # Step 2: Scan the envelope for a value PLAEAUPOINT.
     for j in range(1, n):
-- 
2.43.0


From 62f9d97ecfd7a722d105c020a3210d5a4c40d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 037/133] fix: shortening to an even number of modes folds both
 highest wave numbers

---
 funpy/trig/trig_simplify.py | 5 +++--
 funpy/trig/trigtech.py      | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/funpy/trig/trig_simplify.py b/funpy/trig/trig_simplify.py
index 4f9f28d..5976011 100644
--- a/funpy/trig/trig_simplify.py
+++ b/funpy/trig/trig_simplify.py
@@ -43,9 +43,10 @@ def prolong(coeffs, Nout, isReal=None):
     if Nout < Nin:
         kup = np.floor((Nin-Nout)/2).astype(int)
         kdown = np.ceil((Nin-Nout)/2).astype(int)
-        coeffs = coeffs[kup:-kdown, :]
+        full, coeffs = coeffs, np.copy(coeffs[kup:-kdown, :])
         if kup < kdown:
-            coeffs[0, :] = 2*coeffs[0, :]
+            # the highest wave numbers of both signs coincide on the samples
+            coeffs[0, :] += full[-kdown, :]
 
         coeffs = np.asfortranarray(coeffs)
         values = coeffs2vals(coeffs)
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 83a91c0..f4474f4 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -301,9 +301,10 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         if Nout < Nin:
             kup = np.floor((Nin-Nout)/2).astype(int)
             kdown = np.ceil((Nin-Nout)/2).astype(int)
-            coeffs = coeffs[kup:-kdown, :]
+            full, coeffs = coeffs, np.copy(coeffs[kup:-kdown, :])
             if kup < kdown:
-                coeffs[0, :] = 2*coeffs[0, :]
+                # the highest wave numbers of both signs coincide on the samples
+                coeffs[0, :] += full[-kdown, :]
             self.coeffs = np.asfortranarray(coeffs)
             self.values = coeffs2vals(self.coeffs)
             self.values[:, self.isReal] = np.real(self.values[:, self.isReal])
@@ -470,9 +471,9 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         elif Nout < Nin:
             kup = np.floor((Nin-Nout)/2).astype(int)
             kdown = np.ceil((Nin-Nout)/2).astype(int)
-            c = c[kup:-kdown, :]
+            full, c = c, np.copy(c[kup:-kdown, :])
             if kup < kdown:
-                c[0, :] = 2*c[0, :]
+                c[0, :] += full[-kdown, :]
 
         else:
             raise RuntimeError("I should not get here!")
-- 
2.43.0


From 66e47cf94eae75f56c8fe0201d48a511db28a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 038/133] fix: simplifying periodic functions does not lengthen
 them

---
 funpy/trig/trig_simplify.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/trig/trig_simplify.py b/funpy/trig/trig_simplify.py
index 5976011..3226a37 100644
--- a/funpy/trig/trig_simplify.py
+++ b/funpy/trig/trig_simplify.py
@@ -89,8 +89,7 @@ def simplify_coeffs(coeffs, isReal, eps=1e-14):
         cutoff = max(cutoff, standardChopCmplx(abs_coeffs[:, k], tol[k]))
 
     # take the minimum cutoff.
-    cutoff = min(cutoff, nold)
-
+    cutoff = min(cutoff, nold - 1)
     # cutoff is the last index to keep, where every wave number but zero appears twice
     cutoff = (cutoff + 1)//2 + 1
 
-- 
2.43.0


From c7ade1e9b01e3c06eb845274e42da293db4f3982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 039/133] fix: a single callable may supply several columns of
 a periodic function

---
 funpy/cheb/refine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index eabc71b..c2da52a 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -16,6 +16,12 @@ class FunctionContainer:
         return len(self.fs)
 
     def __call__(self, x):
+        # a single callable may supply several columns
+        if len(self.fs) == 1:
+            r = np.asarray(self.fs[0](x), dtype=self.dtype)
+            if r.size > x.size:
+                return r.reshape((x.size, -1))
+
         r = np.empty((x.size, len(self.fs)), order='F', dtype=self.dtype)
         for i, f in enumerate(self.fs):
             r[:, i] = f(x)
-- 
2.43.0


From 29b57073d45e4cb106d54efd4afb879e0cfaf310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 040/133] fix: composing functions honours their domain

---
 funpy/fun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 77e29e3..4f20df6 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -347,8 +347,7 @@ def compose(f, op, g=None, ftype=None):
     if ftype is None:
         ftype = f.type
 
-    return Fun(domain=f.domain, mapping=f.mapping, type=ftype, op=cop,
-               compose=False)
+    return Fun(domain=f.domain, mapping=f.mapping, type=ftype, op=cop)
 
 
 def qr(f, *args, **kwargs):
-- 
2.43.0


From 2a4f7120928cc54f2a3eaf16fc42a4067b35aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 041/133] fix: derivative of order zero is the function

---
 funpy/cheb/chebtech.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index b75033d..6eeca47 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -499,8 +499,7 @@ def diff(cheb, n=1, axis=0):
                        ishappy=cheb.ishappy, maxLength=cheb.maxLength)
 
     # Iteratively compute the coefficients of the derivatives
-    c = computeDerCoeffs(c)
-    for _ in range(1, n):
+    for _ in range(n):
         c = computeDerCoeffs(c)
 
     # This returns a chebtech that has only N - k Chebyshev coefficients
-- 
2.43.0


From c97bd47384bfe567c3fe8e899981d21f83a9a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:24 +0000
Subject: [PATCH 042/133] fix: antiderivatives of functions with several
 columns

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 6eeca47..9b32c1b 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -560,7 +560,7 @@ def cumsum(cheb, **kwargs):
     """
     n, m = cheb.shape
     c = np.vstack((cheb.coeffs, np.zeros((2, m))))  # pad with zeros
-    b = np.zeros((n+1, m))
+    b = np.zeros((n+1, m), order='F')
 
     # compute b_(2) ... b_(n+1)
     b[2:n+1, :] = (c[1:n, :] - c[3:n+2, :]) / np.tile(np.expand_dims(2*np.arange(2, n+1), axis=1), (1, m))
-- 
2.43.0


From 75698fbd53980189e728cba8af5938dcf30fbfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 043/133] fix: simplifying does not append a coefficient of
 rounding errors

---
 funpy/cheb/detail.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 3ee1977..66dde5e 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -166,7 +166,7 @@ cpdef simplify_coeffs(double[::1, :] coeffs, eps=1.48e-8):
         cutoff = max_idx(cutoff, chop)
 
     # take the minimum cutoff.
-    cutoff = min_idx(cutoff, nold)
+    cutoff = min_idx(cutoff, nold - 1)
 
     # chop coefficients: +1 here since cutoff is the last index to keep!
     return np.asarray(coeffs[:cutoff+1, :], order='F')
-- 
2.43.0


From 4ef491df7bd5465d169d267cdba5650a06e77729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 044/133] fix: integral of a constant has the shape of every
 other integral

---
 funpy/cheb/chebtech.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 9b32c1b..99dbeb0 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -521,8 +521,7 @@ def sum(cheb, axis=0, **kwargs):
 
     # Constant cheb function
     if n == 1:
-        return 2 * cheb.coeffs
-
+        return (2 * cheb.coeffs).squeeze()
     # Evaluate the integral by using the Chebyshev coefficients
     #
     # Int_{-1}^{1} T_k(x) dx = 2 / (1 - k^2)   if k even
-- 
2.43.0


From e6795d1bb046d4b20ee89c0708d610e1b2c0c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 045/133] fix: odd derivatives of periodic functions with an
 even number of modes

---
 funpy/trig/trigtech.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index f4474f4..b237380 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -576,6 +576,11 @@ def diff(f, n=1, axis=0):
     m = f.n
     c = f.coeffs  # TODO call simplify!
 
+    # odd derivatives of the unpaired mode need both of its wave numbers
+    if not m & 1 and n & 1 and np.any(c[0, :] != 0):
+        m += 1
+        c = f.prolong_coeffs(m)
+
     if m & 1:
         waveNumber = np.expand_dims(np.arange(-(m-1)/2, m/2), axis=1)
     else:
-- 
2.43.0


From ad1f987a401aa9db7ee839b126a8fea47a16adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 046/133] fix: antiderivatives of periodic functions

---
 funpy/trig/trigtech.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index b237380..1d119e8 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -640,7 +640,7 @@ def cumsum(f, m=1, **kwargs):
         ind = (n+1)//2 - 1
 
     # check that the mean of the trigtech is zero. If it is not, then throw an error.
-    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*f.vscale*f.eps):
+    if np.any(np.abs(f.coeffs[ind, :]) > 1e1*f.get_vscale()*f.eps):
         raise RuntimeError("Indefinite integrals are only possible for trigtech objects with zero mean!")
 
     # throw error that this is only possible for mean zero trigtechs
@@ -652,7 +652,7 @@ def cumsum(f, m=1, **kwargs):
         c = np.vstack((c, c[0, :]))
         highestDegree = n//2
     else:
-        c[(n+1)//2, :] = 0
+        c[ind, :] = 0
         highestDegree = (n-1)//2
 
     # TODO silence warning here!
@@ -662,18 +662,13 @@ def cumsum(f, m=1, **kwargs):
     # zero out the one corresponding to the zeroth term
     integrationFactor[highestDegree] = 0
     c = c * integrationFactor
-    # If this is an odd order cumsum and there an even number of
-    # coefficients then zero out the coefficients corresponding to
-    # sin(N/2x) term, since this will be zero on the Fourier grid
-    if m & 1 and isEven:
-        c[0, :] = 0
-        c[n, :] = 0
-
     # fix the constant term
-    c[highestDegree+1, :] = -np.sum(c * (-1+0j)**sumIndices)
+    c[highestDegree, :] = -np.sum(c * (-1+0j)**sumIndices, axis=0)
 
-    if isEven:
+    # the highest wave number is unpaired again if its coefficients agree
+    if isEven and np.all(c[0, :] == c[n, :]):
         c = c[:-1]
+        c[0, :] = 2 * c[0, :]
 
     # call simplify
     # grab lval
-- 
2.43.0


From 5bbbfbfb04bee2a28c8ce254efd59c9c1591fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 047/133] fix: shifting periodic functions with an even number
 of modes

---
 funpy/trig/operations.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index cbc8dd5..77f75ab 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -21,6 +21,12 @@ def circshift(f, a):
     if a == 0:
         return np.copy(f)
 
+    # shifting the unpaired mode needs both of its wave numbers
+    coeffs = f.coeffs
+    if np.remainder(n, 2) == 0 and np.any(coeffs[0, :] != 0):
+        n += 1
+        coeffs = f.prolong_coeffs(n)
+
     # These interpolations are defined on the interval [0, 2*pi), but we want them on
     # (-pi, pi). To fix the coefficients for this we just need to assign
     # c_k = (-1)^k c_k, for k = -(N-1)/2:(N-1)/2 for N odd and k = -N/2:N/2-1 for N even
@@ -32,7 +38,7 @@ def circshift(f, a):
     else:
         even_odd_fix = np.exp(-1j*np.pi*a)**(np.arange(-n/2, n/2, 1))
 
-    ncoeffs = f.coeffs * np.expand_dims(even_odd_fix, axis=1)
+    ncoeffs = coeffs * np.expand_dims(even_odd_fix, axis=1)
     nvalues = coeffs2vals(ncoeffs)
 
     if not np.isreal(a):
-- 
2.43.0


From 1ba5b5d1a1d2650e938e3cd3e9d2c0b9a5685263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 048/133] fix: shifting periodic functions in the coordinates
 of their domain

---
 funpy/fun.py             | 3 ++-
 funpy/trig/operations.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 4f20df6..6bf2f68 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -574,7 +574,8 @@ def innerw(f, g):
 def roll(f, a):
     if not f.istrig:
         return NotImplemented
-    nf = circshift(f.onefun, a)
+    # the shift is given in the coordinates of the domain
+    nf = circshift(f.onefun, a / (0.5 * np.diff(f.domain).item()))
     return Fun(domain=f.domain, mapping=f.mapping, onefun=nf)
 
 
diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index 77f75ab..39dd379 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -72,7 +72,7 @@ def circconv(f, g, domain):
 
     # Convolution is just multiplication of the Fourier coefficients.
     # Shift g horizontally to -1
-    g = np.roll(g, -1)
+    g = circshift(g, -1)
     nvalues = 2./n * ifft(fft(f.values, axis=0) * fft(g.values, axis=0), axis=0)
     ncoeffs = vals2coeffs(nvalues)
 
-- 
2.43.0


From f4783cc3935610c6ec7bed930e22581b3c09132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 049/133] fix: convolutions of periodic functions with an even
 number of modes

---
 funpy/trig/operations.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/funpy/trig/operations.py b/funpy/trig/operations.py
index 39dd379..fdf92e6 100644
--- a/funpy/trig/operations.py
+++ b/funpy/trig/operations.py
@@ -63,12 +63,12 @@ def circconv(f, g, domain):
     nf = f.n
     ng = g.n
 
-    # Make sure the trigtech objects have the same underlying size
-    if nf > ng:
-        g = np.copy(g).prolong(nf)
-    elif nf < ng:
-        f = np.copy(f).prolong(ng)
-    n = f.n
+    # Make sure the trigtech objects have the same underlying size, which is odd
+    # so that every mode is paired.
+    n = max(nf, ng)
+    n += 1 - np.remainder(n, 2)
+    f = np.copy(f).prolong(n)
+    g = np.copy(g).prolong(n)
 
     # Convolution is just multiplication of the Fourier coefficients.
     # Shift g horizontally to -1
@@ -95,11 +95,12 @@ def trig_adhesion(f, g, domain):
     nf = f.n
     ng = g.n
 
-    # Make sure the trigtech objects have the same underlying size
-    if nf > ng:
-        g = np.copy(g).prolong(nf)
-    elif nf < ng:
-        f = np.copy(f).prolong(ng)
+    # Make sure the trigtech objects have the same underlying size, which is odd
+    # so that every mode is paired.
+    n = max(nf, ng)
+    n += 1 - np.remainder(n, 2)
+    f = np.copy(f).prolong(n)
+    g = np.copy(g).prolong(n)
 
     ncoeffs = f.coeffs * g.coeffs
     nvalues = coeffs2vals(ncoeffs)
-- 
2.43.0


From 88d5f73260369456677f1e389ac350693b318056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 050/133] fix: find roots to the tolerance of the function

---
 funpy/cheb/detail.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 66dde5e..4b3e70d 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -580,8 +580,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         cRight = np.matmul(TRight[:n, :n], c)
 
         # Recurse
-        rLeft = roots_main(cLeft, 2*htol, splitPoint)
-        rRight = roots_main(cRight, 2*htol, splitPoint)
+        rLeft = roots_main(cLeft, 2*htol, splitPoint, eps=eps)
+        rRight = roots_main(cRight, 2*htol, splitPoint, eps=eps)
         r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2 * rLeft,
                             (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
 
@@ -600,8 +600,8 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
         cRight = polyfit(v[n:]).squeeze()
 
         # Recurse
-        rLeft = roots_main(cLeft, 2*htol, splitPoint)
-        rRight = roots_main(cRight, 2*htol, splitPoint)
+        rLeft = roots_main(cLeft, 2*htol, splitPoint, eps=eps)
+        rRight = roots_main(cRight, 2*htol, splitPoint, eps=eps)
         r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2*rLeft,
                             (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))
 
@@ -622,7 +622,7 @@ def roots_scalar(f, eps=1.48e-8):
     c = f.coeffs / f.vscale
 
     # call the recursive roots_main function
-    r = roots_main(c.squeeze(), 100*eps, splitPoint)
+    r = roots_main(c.squeeze(), 100*eps, splitPoint, eps=eps)
     return r
 
 def roots(f, *args, **kwargs):
-- 
2.43.0


From b0424fe44839c0c90b880a79d90601baf73947f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 051/133] fix: roots of linear functions outside the domain are
 not reported

---
 funpy/cheb/detail.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 4b3e70d..6abb2df 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -531,11 +531,11 @@ def roots_main(c, htol, splitPoint, eps=1.48e-8,
     elif n == 2:
         r = [-c[0] / c[1]]
 
-        if all_roots:
-            if np.abs(np.imag(r)) > htol or (r < -(1 + htol)) or (r > (1 + htol)):
+        if not all_roots:
+            if np.abs(np.imag(r[0])) > htol or (r[0] < -(1 + htol)) or (r[0] > (1 + htol)):
                 r = []
             else:
-                r = [max(min(np.real(r), 1), -1)]
+                r = [max(min(np.real(r[0]), 1), -1)]
 
     elif n <= maxEigSize:
         # Adjust the coefficients for the colleague matrix:
-- 
2.43.0


From 976fdd0590f673fa670641473f6a8cd3d5a17f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 052/133] fix: inner products of periodic functions with
 different numbers of columns

---
 funpy/trig/trigtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 1d119e8..8e5d1db 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -692,7 +692,7 @@ def inner(trig1, trig2, weighted=False):
     out = np.matmul(fvalues.T * w, np.conj(gvalues))
 
     # FIXME for array valued trigtechs!
-    if np.all(trig1.isReal * trig2.isReal):
+    if np.all(trig1.isReal) and np.all(trig2.isReal):
         out = np.real(out)
 
     # Force non-negative output when the inputs are the same
-- 
2.43.0


From 6e758b8b311537d49134bd491d33b6e86f29432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 053/133] fix: ends of a domain are inside of the domain

---
 funpy/mapping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/mapping.py b/funpy/mapping.py
index 993bcee..af4c806 100644
--- a/funpy/mapping.py
+++ b/funpy/mapping.py
@@ -26,7 +26,8 @@ class Mapping(object):
         """
         self.fwd = lambda y: (self.ends[1] * (y + 1) + self.ends[0] * (1 - y)) / 2
         self.der = lambda y: np.diff(self.ends) / 2 + 0*y
-        self.bwd = lambda x: (2 * x - self.ends[0] - self.ends[1]) / np.diff(self.ends)
+        # written such that the ends are mapped exactly to -1 and 1
+        self.bwd = lambda x: ((x - self.ends[0]) - (self.ends[1] - x)) / np.diff(self.ends)
 
     def __call__(self, x):
         return self.fwd(x)
-- 
2.43.0


From 2e4f266f6ad81d84f7073c4ca3abd85df204b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 054/133] fix: inverse of a mapping

---
 funpy/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/mapping.py b/funpy/mapping.py
index af4c806..fe5f4a4 100644
--- a/funpy/mapping.py
+++ b/funpy/mapping.py
@@ -42,5 +42,5 @@ class Mapping(object):
         return np.all(self.ends == other.ends)
 
     def inv(self):
-        return Mapping(self.ends, fwd=self.inv,
-                       der=lambda x: 1./self.der(x), inv=self.fwd)
+        return Mapping(self.ends, fwd=self.bwd,
+                       der=lambda x: 1./self.der(self.bwd(x)), bwd=self.fwd)
-- 
2.43.0


From a415ba373adb5d60dbe53bcf084b58765827e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 055/133] fix: refuse to combine functions on different domains
 in either order

---
 funpy/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 6bf2f68..7312c55 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -171,7 +171,7 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
 
             # check domain
             if isinstance(x, type(self)):
-                if not np.all(np.asarray(x.domain) - np.asarray(self.domain) < SMALL_EPS):
+                if not np.all(np.abs(np.asarray(x.domain) - np.asarray(self.domain)) < SMALL_EPS):
                     raise ValueError("Domain mismatch %s != %s!" % (x.domain, self.domain))
 
         if method == "__call__":
-- 
2.43.0


From 5cb381ee0a631f502cbc102d456095fa8d64ba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 056/133] fix: refuse to stack functions on different domains

---
 funpy/fun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index 7312c55..60a4171 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -581,6 +581,10 @@ def roll(f, a):
 
 @implements(np.hstack)
 def hstack(funs):
+    for f in funs[1:]:
+        if not np.all(np.asarray(f.domain) == np.asarray(funs[0].domain)):
+            raise ValueError("Domain mismatch %s != %s!" % (f.domain, funs[0].domain))
+
     nf = np.hstack([f.onefun for f in funs])
     return Fun(domain=funs[0].domain, mapping=funs[0].mapping, onefun=nf)
 
-- 
2.43.0


From a42f097436d9f09af141050fef16757dccb96f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 057/133] fix: adhesion operator refuses functions on different
 domains

---
 funpy/fun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index 60a4171..6e9bf19 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -510,6 +510,9 @@ def adhesion(f, g):
     """
     assert f.istrig == g.istrig, 'Fun type must match for computing convolutions!'
     if f.istrig:
+        if not np.all(np.asarray(f.domain) == np.asarray(g.domain)):
+            raise ValueError("Domain mismatch %s != %s!" % (f.domain, g.domain))
+
         # Simply multiply the coefficients together!
         df = trig_adhesion(f, g, f.domain)
         return Fun(domain=f.domain, mapping=f.mapping, onefun=df)
-- 
2.43.0


From 5c22babb887118da7c4894eadcb9f50c31c99a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 058/133] fix: QR factorisation of function columns (one
 column, storage order, small and zero columns)

---
 funpy/cheb/qr.py | 8 ++++----
 funpy/qr.py      | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/funpy/cheb/qr.py b/funpy/cheb/qr.py
index a59c4f4..bbebe5c 100644
--- a/funpy/cheb/qr.py
+++ b/funpy/cheb/qr.py
@@ -10,7 +10,7 @@ from .detail import polyfit, polyval
 from ..qr import abstractQR
 
 
-def qr(f, eps=1.48e-8):
+def qr(f, eps=1e-13):
     """ Returns the QR factorisation of F such that F = Q * R, where the
         chebtech Q is orthogonal with respect to the L2-norm
     """
@@ -21,8 +21,8 @@ def qr(f, eps=1.48e-8):
 
     # If it contains only one column we simply scale
     if m == 1:
-        R = np.sqrt(f.innerproduct(f))
-        Q = f/R
+        R = np.sqrt(np.reshape(np.inner(f, f), (1, 1)))
+        Q = f.coeffs / R if R[0, 0] > 0 else f.coeffs + 0.0
         return Q, R
 
     tol = eps * np.max(f.vscale)
@@ -52,6 +52,6 @@ def qr(f, eps=1.48e-8):
 
     # compute the corresponding Chebyshev coefficients
     coeffs = polyfit(Q)
-    return coeffs[:newN//2+1, :], R
+    return np.asfortranarray(coeffs[:newN//2+1, :]), R
     #Q = chebtec(coeffs=coeffs[:newN//2+1, :], interval=f.interval, simplify=False)
     return Q, R
diff --git a/funpy/qr.py b/funpy/qr.py
index 9892c46..697daff 100644
--- a/funpy/qr.py
+++ b/funpy/qr.py
@@ -9,7 +9,7 @@ def abstractQR(A, E, inner_product, norm, tol):
     V = np.copy(A)
 
     for k in range(numCols):
-        I = np.arange(0, k-1)
+        I = np.arange(0, k)
         J = np.arange(k+1, numCols)
 
         # scale
@@ -20,7 +20,7 @@ def abstractQR(A, E, inner_product, norm, tol):
         aex = abs(ex)
 
         # Adjust the sign of the k-th column in E
-        if aex < tol * scl:
+        if aex <= tol * scl:
             s = 1
         else:
             s = -np.sign(ex / aex)
@@ -40,7 +40,7 @@ def abstractQR(A, E, inner_product, norm, tol):
 
         # normalize
         nv = np.sqrt(inner_product(v, v))
-        if nv < tol * scl:
+        if nv <= tol * scl:
             v = E[:, k]
         else:
             v /= nv
-- 
2.43.0


From 57e4021531127024fc094ebfbadc264e3516c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 059/133] fix: select columns with slices without ends and with
 numpy integers

---
 funpy/cheb/chebtech.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 99dbeb0..d03329a 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -2,7 +2,7 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 from copy import deepcopy
-from numbers import Number
+from numbers import Number, Integral
 
 import numpy as np
 from numpy.core.multiarray import normalize_axis_index
@@ -216,14 +216,16 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
     """ Useful to select a column of function """
     def __getitem__(self, idx):
         if isinstance(idx, slice):
-            if idx.start < 0 or idx.stop > self.m:
-                raise IndexError("The index slice({0:d}, {1:d}) is out of range ({2:d})!".format(idx.start, idx.stop, self.m))
+            start = 0 if idx.start is None else idx.start
+            stop = self.m if idx.stop is None else idx.stop
+            if start < 0 or stop > self.m:
+                raise IndexError("The index slice({0:d}, {1:d}) is out of range ({2:d})!".format(start, stop, self.m))
 
             return chebtech(coeffs=np.array(self.coeffs[:, idx], order='F'), eps=self.eps,
                            maxLength=self.maxLength, simplify=False,
                            ishappy=self.ishappy)
 
-        elif isinstance(idx, int):
+        elif isinstance(idx, Integral):
             if idx < 0 or idx >= self.m:
                 raise IndexError("The index {0:d} is out of range ({1:d})!".format(idx, self.m))
 
-- 
2.43.0


From 8bf74947521acba84901812b1b74039db0d10f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 060/133] fix: select columns of periodic functions with slices

---
 funpy/trig/trigtech.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 8e5d1db..0e3ac94 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -215,6 +215,15 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
 
     """ Useful to select a column of function """
     def __getitem__(self, idx):
+        if isinstance(idx, slice):
+            start = 0 if idx.start is None else idx.start
+            stop = self.m if idx.stop is None else idx.stop
+            if start < 0 or stop > self.m:
+                raise IndexError("The index slice({0:d}, {1:d}) is out of range ({2:d})!".format(start, stop, self.m))
+
+            return trigtech(coeffs=self.coeffs[:, idx], values=self.values[:, idx],
+                            simplify=False, ishappy=self.ishappy)
+
         assert idx >= 0 and idx < self.m, 'Index %d out of range [0, %d].' % (idx, self.m-1)
         if idx < 0 or idx >= self.m:
             raise IndexError
-- 
2.43.0


From 7ae44069db767a13ba738c321f200bb4ebeb932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 061/133] fix: stack periodic functions

---
 funpy/trig/trigtech.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 0e3ac94..82e0b5d 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -526,6 +526,13 @@ def argmax(f):
 def copy(trig):
     return deepcopy(trig)
 
+@implements(np.hstack)
+def hstack(trigs):
+    n = max([len(trig) for trig in trigs])
+    coeffs = np.hstack([trig.coeffs if len(trig) == n else trig.prolong_coeffs(n) for trig in trigs])
+    return trigtech(coeffs=np.asfortranarray(coeffs), eps=max([trig.eps for trig in trigs]))
+
+
 @implements(np.real)
 def real(trig):
     """ Returns real part of a trigtech """
-- 
2.43.0


From 0ca0b460a1039cce2ca349b4f9b18a664e05a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 062/133] fix: build functions from a vector of values

---
 funpy/fun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/funpy/fun.py b/funpy/fun.py
index 6e9bf19..3773961 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -223,6 +223,8 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
     def from_values(cls, values, n_funs, type='cheb', *args, **kwargs):
         assert values.size % n_funs == 0, 'Array must fit!'
 
+        values = values.reshape((values.size // n_funs, n_funs), order='F')
+
         if type == 'cheb':
             nf = chebtech.from_values(values, simplify=False)
         elif type == 'trig':
-- 
2.43.0


From 11f048415181bee19cf20bf85c14b7939978947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 063/133] fix: nested iteration over the columns of a function

---
 funpy/fun.py           | 11 +++--------
 funpy/trig/trigtech.py | 11 +++--------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index 3773961..dae81d2 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -154,14 +154,9 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
         return Fun(domain=self.domain, mapping=self.mapping, onefun=new_fun)
 
     def __iter__(self):
-        self.ipos = 0
-        return self
-
-    def __next__(self):
-        if self.ipos >= self.m:
-            raise StopIteration
-        self.ipos += 1
-        return self[self.ipos-1]
+        # every loop needs its own position
+        for i in range(self.m):
+            yield self[i]
 
     def __array_ufunc__(self, numpy_ufunc, method, *inputs, **kwargs):
         out = kwargs.get('out', ())
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 82e0b5d..3516d8c 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -235,14 +235,9 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
         return fun
 
     def __iter__(self):
-        self.ipos = 0
-        return self
-
-    def __next__(self):
-        if self.ipos >= self.m:
-            raise StopIteration
-        self.ipos += 1
-        return self[self.ipos-1]
+        # every loop needs its own position
+        for i in range(self.m):
+            yield self[i]
 
     def __construct_from_callable(self, callable):
         pass
-- 
2.43.0


From 9d78122ca001c933b0e7c9ffa717bc154aa32e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 064/133] fix: combining parameters with different names is an
 error

---
 funpy/vectorspaces/parameter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/funpy/vectorspaces/parameter.py b/funpy/vectorspaces/parameter.py
index 5ee1dd2..ea75f70 100644
--- a/funpy/vectorspaces/parameter.py
+++ b/funpy/vectorspaces/parameter.py
@@ -6,6 +6,8 @@ from numbers import Number
 
 
 HANDLED_FUNCTIONS = {}
+COMPARISONS = (np.equal, np.not_equal, np.less, np.less_equal, np.greater,
+               np.greater_equal)
 
 
 class Parameter(np.lib.mixins.NDArrayOperatorsMixin):
@@ -46,12 +48,17 @@ class Parameter(np.lib.mixins.NDArrayOperatorsMixin):
         return np.asarray(self.value)
 
     def __array_ufunc__(self, numpy_ufunc, method, *inputs, **kwargs):
-        # TODO: check that parameter names are the same!!
         out = kwargs.get('out', ())
         for x in inputs + out:
             if not isinstance(x, (Number, np.ndarray, type(self))):
                 return NotImplemented
 
+        # Parameters with different names are different quantities, they can
+        # be compared but not combined.
+        names = {x.name for x in inputs + out if isinstance(x, type(self))}
+        if len(names) > 1 and numpy_ufunc not in COMPARISONS:
+            raise ValueError(f"Can't combine the parameters {', '.join(sorted(names))}!")
+
         if method == '__call__':
             ipts = [np.asarray(x) for x in inputs]
             if out:
-- 
2.43.0


From 59cb3dc4e6702161799df8c8e93672d2e17dfbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 065/133] fix: comparisons of parameters are usable as
 conditions

---
 funpy/vectorspaces/parameter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/funpy/vectorspaces/parameter.py b/funpy/vectorspaces/parameter.py
index ea75f70..67aef67 100644
--- a/funpy/vectorspaces/parameter.py
+++ b/funpy/vectorspaces/parameter.py
@@ -44,6 +44,9 @@ class Parameter(np.lib.mixins.NDArrayOperatorsMixin):
     def __float__(self):
         return float(self.value)
 
+    def __bool__(self):
+        return bool(self.value)
+
     def __array__(self):
         return np.asarray(self.value)
 
-- 
2.43.0


From dce80a0ae648419b86ac0e21773a19c30997ea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 066/133] fix: states remove every active parameter from their
 namespace

---
 funpy/vectorspaces/base_state.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 42cb9f4..179fe14 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -61,13 +61,9 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
                 self.ns[par] = Parameter(**{par: par_value})
 
     def sync_ns(self):
-        # Remove reals[0] name from ns
-        try:
-            # Delete the names of the parameters from the namespace!
-            for r in self.reals:
-                del self.ns[r.name]
-        except KeyError:
-            pass
+        # Delete the names of the parameters from the namespace!
+        for r in self.reals:
+            self.ns.pop(r.name, None)
 
     @property
     def number_real(self):
-- 
2.43.0


From 64584e1806f21d546a65a676366a13f80fb005e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 067/133] fix: assigning the active parameter of a state
 updates it

---
 funpy/vectorspaces/base_state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 179fe14..f895e7d 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -235,6 +235,11 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
     def __setitem__(self, key, value):
         # TODO: this is not elegant at all; and setitem and getitem do
         # different things now. FIXME
+        for real in self.reals:
+            if real.name == key:
+                real.value = float(value)
+                return
+
         self.ns[key] = value
 
     def __deepcopy__(self, memo):
-- 
2.43.0


From c95c9dd280ce53a8f74c7a6ea664116e58cfd25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 068/133] fix: from_state works for parameters of any name

---
 funpy/vectorspaces/base_state.py      | 12 +++++++++---
 funpy/vectorspaces/cont_state.py      |  3 +--
 funpy/vectorspaces/deflation_state.py |  3 +--
 funpy/vectorspaces/tp_cont_state.py   |  3 +--
 funpy/vectorspaces/tp_state.py        |  3 +--
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index f895e7d..79abb38 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -56,9 +56,15 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
         self.ns = kwargs.pop('ns', None)
         if self.ns is None:  # If namespace is None construct one!
             self.ns = Namespace()
-            # load everything remaining in kwargs into the state's namespace
-            for par, par_value in kwargs.items():
-                self.ns[par] = Parameter(**{par: par_value})
+
+        # load everything remaining in kwargs into the state's namespace
+        for par, par_value in kwargs.items():
+            self.ns[par] = Parameter(**{par: par_value})
+
+    @staticmethod
+    def ns_from_state(state):
+        """ A namespace holding a copy of all the parameters of the state """
+        return Namespace(**{name: Parameter(**{name: value}) for name, value in state.items()})
 
     def sync_ns(self):
         # Delete the names of the parameters from the namespace!
diff --git a/funpy/vectorspaces/cont_state.py b/funpy/vectorspaces/cont_state.py
index ab0bc1e..d376c8d 100644
--- a/funpy/vectorspaces/cont_state.py
+++ b/funpy/vectorspaces/cont_state.py
@@ -74,8 +74,7 @@ class ContinuationState(BaseState):
     @classmethod
     def from_state(cls, other, pname, pvalue, *args, **kwargs):
         ap = Parameter(**{pname: float(pvalue)})
-        pars = {n: v for n, v in other.items()}
-        return cls(a=ap, u=other.u, *args, **pars, **kwargs)
+        return cls(a=ap, u=other.u, *args, ns=cls.ns_from_state(other), **kwargs)
 
     def __array__(self):
         return np.hstack((self.funcs[0].coeffs.flatten(order='F'),
diff --git a/funpy/vectorspaces/deflation_state.py b/funpy/vectorspaces/deflation_state.py
index c955163..2bf28a4 100644
--- a/funpy/vectorspaces/deflation_state.py
+++ b/funpy/vectorspaces/deflation_state.py
@@ -25,8 +25,7 @@ class DeflationState(BaseState):
 
     @classmethod
     def from_state(cls, other, **kwargs):
-        pars = {n: v for n, v in other.items()}
-        return cls(u=other.u, **{**pars, **kwargs})
+        return cls(u=other.u, ns=cls.ns_from_state(other), **kwargs)
 
     @classmethod
     def from_coeffs(cls, coeffs, n_funs, *args, **kwargs):
diff --git a/funpy/vectorspaces/tp_cont_state.py b/funpy/vectorspaces/tp_cont_state.py
index 2d4c167..dd36359 100644
--- a/funpy/vectorspaces/tp_cont_state.py
+++ b/funpy/vectorspaces/tp_cont_state.py
@@ -52,8 +52,7 @@ class TwoParContState(BaseState):
     def from_state(cls, other, pname1, pvalue1, pname2, pvalue2, *args, **kwargs):
         ap1 = Parameter(**{pname1: float(pvalue1)})
         ap2 = Parameter(**{pname2: float(pvalue2)})
-        pars = {n: v for n, v in other.items()}
-        return cls(p1=ap1, p2=ap2, u=other.u, *args, **pars, **kwargs)
+        return cls(p1=ap1, p2=ap2, u=other.u, *args, ns=cls.ns_from_state(other), **kwargs)
 
     def __len__(self):
         # TODO?
diff --git a/funpy/vectorspaces/tp_state.py b/funpy/vectorspaces/tp_state.py
index 74bef34..a6317da 100644
--- a/funpy/vectorspaces/tp_state.py
+++ b/funpy/vectorspaces/tp_state.py
@@ -64,8 +64,7 @@ class TwoParameterState(BaseState):
     def from_state(cls, other, pname1, pvalue1, pname2, pvalue2, *args, **kwargs):
         ap1 = Parameter(**{pname1: float(pvalue1)})
         ap2 = Parameter(**{pname2: float(pvalue2)})
-        pars = {n: v for n, v in other.items()}
-        return cls(p1=ap1, p2=ap2, u=other.u, *args, **pars, **kwargs)
+        return cls(p1=ap1, p2=ap2, u=other.u, *args, ns=cls.ns_from_state(other), **kwargs)
 
     def __len__(self):
         # TODO?
-- 
2.43.0


From 87ef9c486be6b4ad072d80b4747685de6df7b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 069/133] fix: composing technologies longer than the first
 grid

---
 funpy/cheb/refine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/funpy/cheb/refine.py b/funpy/cheb/refine.py
index c2da52a..c89e035 100644
--- a/funpy/cheb/refine.py
+++ b/funpy/cheb/refine.py
@@ -134,6 +134,8 @@ class Refine(RefineBase):
 """ Class to resample existing chebyshev polynomials """
 class RefineCompose1(RefineBase):
     def __init__(self, f, op, *args, **kwargs):
+        # the first grid must resolve the function that is composed
+        kwargs['minSamples'] = max(f.n, kwargs.get('minSamples', 0))
         super().__init__(op, *args, **kwargs)
         self.f = f
         self._call = self.__nested
@@ -183,6 +185,8 @@ class RefineCompose1(RefineBase):
 """ Class to re-sample existing Chebyshev polynomials """
 class RefineCompose2(RefineBase):
     def __init__(self, f, op, g, *args, **kwargs):
+        # the first grid must resolve the functions that are composed
+        kwargs['minSamples'] = max(f.n, g.n, kwargs.get('minSamples', 0))
         super().__init__(op, *args, **kwargs)
         self.f = f
         self.g = g
-- 
2.43.0


From 0e874161296862ddae0bd608ccc22165860c6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 070/133] fix: results of operations on states keep the weights
 and the namespace

---
 funpy/vectorspaces/base_state.py      | 14 +++++++-------
 funpy/vectorspaces/cont_state.py      |  3 ---
 funpy/vectorspaces/deflation_state.py |  3 ---
 3 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 79abb38..88240ef 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -46,7 +46,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
         self.signature = signature
 
         # Weights
-        self.weights = kwargs.pop('weights', np.ones(len(self.signature)))
+        self.weights = np.array(kwargs.pop('weights', np.ones(len(self.signature))))
 
         # Create functions
         self.funcs = kwargs.pop('funcs', np.empty(self.number_func, dtype=object))
@@ -313,7 +313,7 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
                     tlist = [x.funcs[i] if isinstance(x, type(self)) else x for x in inputs]
                     nfuncs[i] = numpy_ufunc(*tlist)
 
-                return type(self)(funcs=nfuncs, reals=nreals, ns=self.ns)
+                return type(self)(funcs=nfuncs, reals=nreals, weights=self.weights, ns=self.ns)
         else:
             return NotImplemented
 
@@ -337,7 +337,7 @@ def zeros_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.zeros_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return type(state)(funcs=funcs, reals=reals, weights=state.weights, ns=state.ns)
 
 
 @implements(np.ones_like)
@@ -351,7 +351,7 @@ def ones_like(state):
     for i, real in enumerate(state.reals):
         reals[i] = np.ones_like(real)
 
-    return type(state)(funcs=funcs, reals=reals)
+    return type(state)(funcs=funcs, reals=reals, weights=state.weights, ns=state.ns)
 
 
 @implements(np.dot)
@@ -415,7 +415,7 @@ def real(state):
     for i in range(m):
         nfuncs[i] = np.real(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs, weights=state.weights, ns=state.ns)
 
 
 @implements(np.imag)
@@ -430,7 +430,7 @@ def imag(state):
     for i in range(m):
         nfuncs[i] = np.imag(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs, weights=state.weights, ns=state.ns)
 
 
 @implements(np.conj)
@@ -445,7 +445,7 @@ def conj(state):
     for i in range(m):
         nfuncs[i] = np.conj(state.funcs[i])
 
-    return type(state)(reals=nreals, funcs=nfuncs, ns=state.ns)
+    return type(state)(reals=nreals, funcs=nfuncs, weights=state.weights, ns=state.ns)
 
 
 @implements(np.sum)
diff --git a/funpy/vectorspaces/cont_state.py b/funpy/vectorspaces/cont_state.py
index d376c8d..ec14a04 100644
--- a/funpy/vectorspaces/cont_state.py
+++ b/funpy/vectorspaces/cont_state.py
@@ -22,9 +22,6 @@ class ContinuationState(BaseState):
         # Call ctor
         super().__init__(signature=signature, *args, **kwargs)
 
-        # Inner product weights
-        self.weights = kwargs.pop('weights', np.ones(len(self.signature)))
-
         # Setup functions
         if a is not None:
             self.reals[0] = deepcopy(a)
diff --git a/funpy/vectorspaces/deflation_state.py b/funpy/vectorspaces/deflation_state.py
index 2bf28a4..1c96458 100644
--- a/funpy/vectorspaces/deflation_state.py
+++ b/funpy/vectorspaces/deflation_state.py
@@ -13,9 +13,6 @@ class DeflationState(BaseState):
         signature = [BaseState.SpaceType.CHEB]
         super().__init__(signature=signature, *args, **kwargs)
 
-        # Inner product weight
-        self.weights = kwargs.pop('weights', np.ones(len(self.signature)))
-
         # Setup functions - TODO implement np.equal for state!
         if u is not None:
             self.funcs[0] = deepcopy(u)
-- 
2.43.0


From 2685d3b93964db76abe472033ca33d53163f7bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 071/133] fix: real and imaginary parts of states with unequal
 numbers of functions and parameters

---
 funpy/vectorspaces/base_state.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 88240ef..bd6ae9c 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -410,10 +410,10 @@ def real(state):
     nfuncs = np.empty_like(state.funcs)
 
     for i in range(n):
-        nreals[i] = np.real(state.reals[i])
+        nfuncs[i] = np.real(state.funcs[i])
 
     for i in range(m):
-        nfuncs[i] = np.real(state.funcs[i])
+        nreals[i] = np.real(state.reals[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, weights=state.weights, ns=state.ns)
 
@@ -425,10 +425,10 @@ def imag(state):
     nfuncs = np.empty_like(state.funcs)
 
     for i in range(n):
-        nreals[i] = np.imag(state.reals[i])
+        nfuncs[i] = np.imag(state.funcs[i])
 
     for i in range(m):
-        nfuncs[i] = np.imag(state.funcs[i])
+        nreals[i] = np.imag(state.reals[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, weights=state.weights, ns=state.ns)
 
@@ -440,10 +440,10 @@ def conj(state):
     nfuncs = np.empty_like(state.funcs)
 
     for i in range(n):
-        nreals[i] = np.conj(state.reals[i])
+        nfuncs[i] = np.conj(state.funcs[i])
 
     for i in range(m):
-        nfuncs[i] = np.conj(state.funcs[i])
+        nreals[i] = np.conj(state.reals[i])
 
     return type(state)(reals=nreals, funcs=nfuncs, weights=state.weights, ns=state.ns)
 
-- 
2.43.0


From 8dccffb54246ad2a8f8d19b2382fea8703e79882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 072/133] fix: weighted inner product of states

---
 funpy/vectorspaces/base_state.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index bd6ae9c..69332fe 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -7,7 +7,8 @@ from numbers import Number
 
 import numpy as np
 
-from ..fun import norm2, minandmax, innerw
+from ..fun import norm2, minandmax
+from ..fun import innerw as fun_innerw
 from .namespace import Namespace
 from .parameter import Parameter
 
@@ -394,8 +395,8 @@ def innerw(state1, state2):
     inner = 0.0
     n, m = state1.fshape
     for i in range(n):
-        ip = state1.weights[i] * innerw(state1.funcs[i], state2.funcs[i])
-        inner += np.sum(ip)
+        ip = state1.weights[i] * fun_innerw(state1.funcs[i], state2.funcs[i])
+        inner += np.sum(ip.diagonal()) if ip.ndim == 2 else np.sum(ip)
 
     for i in range(m):
         inner += state1.weights[i+n] * np.inner(state1.reals[i], state2.reals[i])
-- 
2.43.0


From ab190a2e9f0d774f8b6c0fac0f14f95f97b94adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 073/133] fix: Sobolev norms of every order in plot_values

---
 funpy/vectorspaces/cont_state.py    | 4 ++--
 funpy/vectorspaces/tp_cont_state.py | 4 ++--
 funpy/vectorspaces/tp_state.py      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/vectorspaces/cont_state.py b/funpy/vectorspaces/cont_state.py
index ec14a04..406d56e 100644
--- a/funpy/vectorspaces/cont_state.py
+++ b/funpy/vectorspaces/cont_state.py
@@ -5,7 +5,7 @@ import numpy as np
 from copy import deepcopy
 import warnings
 
-from ..fun import Fun, h1norm, norm, norm2, sturm_norm, sturm_norm_alt
+from ..fun import Fun, wkpnorm, norm, norm2, sturm_norm, sturm_norm_alt
 
 from .namespace import Namespace
 from .base_state import BaseState
@@ -114,7 +114,7 @@ class ContinuationState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.a), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.a), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.a), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.a), norm(self.u[cidx], p=p)
 
diff --git a/funpy/vectorspaces/tp_cont_state.py b/funpy/vectorspaces/tp_cont_state.py
index dd36359..acc4d2f 100644
--- a/funpy/vectorspaces/tp_cont_state.py
+++ b/funpy/vectorspaces/tp_cont_state.py
@@ -4,7 +4,7 @@
 import numpy as np
 from copy import deepcopy
 
-from ..fun import Fun, h1norm, norm, sturm_norm, sturm_norm_alt
+from ..fun import Fun, wkpnorm, norm, sturm_norm, sturm_norm_alt
 from .base_state import BaseState
 from .parameter import Parameter
 
@@ -112,7 +112,7 @@ class TwoParContState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.b), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.b), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.b), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.b), norm(self.u[cidx], p=p)
 
diff --git a/funpy/vectorspaces/tp_state.py b/funpy/vectorspaces/tp_state.py
index a6317da..8348f57 100644
--- a/funpy/vectorspaces/tp_state.py
+++ b/funpy/vectorspaces/tp_state.py
@@ -5,7 +5,7 @@ import numpy as np
 from copy import deepcopy
 
 from ..fun import Fun
-from ..fun import h1norm, norm, sturm_norm, sturm_norm_alt
+from ..fun import wkpnorm, norm, sturm_norm, sturm_norm_alt
 
 from .base_state import BaseState
 from .parameter import Parameter
@@ -128,7 +128,7 @@ class TwoParameterState(BaseState):
             u0 = self.u[cidx] - (1. / np.diff(self.u.domain)).item() * np.sum(np.sum(self.u[cidx]))
             return np.real(self.b), sturm_norm_alt(u0, p=p)
         elif norm_type == 'Wkp':
-            return np.real(self.b), h1norm(self.u[cidx], p=p, k=k)
+            return np.real(self.b), wkpnorm(self.u[cidx], p=p, k=k)
         else:
             return np.real(self.b), norm(self.u[cidx], p=p)
 
-- 
2.43.0


From bb8241d9c2c438c5d942e9d40edf928ff93dd86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 074/133] fix: the imaginary part of a function can be worked
 with

---
 funpy/cheb/chebtech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index d03329a..181788f 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -470,7 +470,7 @@ def real(cheb):
 @implements(np.imag)
 def imag(cheb):
     """ Returns real part of a chebtech """
-    return chebtech(coeffs=np.imag(cheb.coeffs), simplify=False,
+    return chebtech(coeffs=np.array(np.imag(cheb.coeffs), order='F'), simplify=False,
                    ishappy=cheb.ishappy, eps=cheb.eps,
                    hscale=cheb.hscale, maxLength=cheb.maxLength)
 
-- 
2.43.0


From f0a15bf5b2ce64bee26de2e9e413d40f64591a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 075/133] fix: nested iteration over the columns of a state

---
 funpy/vectorspaces/base_state.py | 10 ++--------
 funpy/vectorspaces/mp_state.py   |  3 ---
 2 files changed, 2 insertions(+), 11 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 69332fe..0f28088 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -230,14 +230,8 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
         return self.funcs[idx // m][idx % m]
 
     def __iter__(self):
-        self.ipos = 0
-        return self
-
-    def __next__(self):
-        if self.ipos >= self.columns:
-            raise StopIteration
-        self.ipos += 1
-        return self[self.ipos-1]
+        for i in range(self.columns):
+            yield self[i]
 
     def __setitem__(self, key, value):
         # TODO: this is not elegant at all; and setitem and getitem do
diff --git a/funpy/vectorspaces/mp_state.py b/funpy/vectorspaces/mp_state.py
index 2fc8f56..f52cf1a 100644
--- a/funpy/vectorspaces/mp_state.py
+++ b/funpy/vectorspaces/mp_state.py
@@ -40,9 +40,6 @@ class MoorePenroseState(np.lib.mixins.NDArrayOperatorsMixin):
     def __iter__(self):
         return iter(self.u)
 
-    def __next__(self):
-        return next(self.u)
-
     def __getattr__(self, name):
         """ Delegate lookup of some symbols to the underlying function objects """
         if not hasattr(self.u, name):
-- 
2.43.0


From 8e4a89cf5086faaa372a2b5c76fd700a2abffe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 076/133] fix: dot product of periodic functions with several
 columns is a number

---
 funpy/trig/trigtech.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 3516d8c..1a20727 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -719,7 +719,8 @@ def innerw(trig1, trig2, weighted=False):
 
 @implements(np.dot)
 def dot(cheb1, cheb2):
-    return inner(cheb1, cheb2)
+    rval = inner(cheb1, cheb2)
+    return np.sum(np.diagonal(rval)).item() if rval.size > 1 else rval
 
 
 def diffmat(self, n, k=1):
-- 
2.43.0


From 709c40d1ce6d6883b7341c7b985dd277a56011e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 077/133] fix: read and write periodic functions

---
 funpy/trig/trigtech.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 1a20727..732aa7e 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -110,6 +110,26 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
     def from_values(cls, values, *args, **kwargs):
         return cls(values=np.asfortranarray(values), *args, **kwargs)
 
+    @classmethod
+    def from_hdf5(cls, hdf5_file):
+        attrs = hdf5_file.attrs
+        nf = cls(coeffs=np.asfortranarray(hdf5_file[:]), eps=attrs["eps"],
+                 hscale=attrs["hscale"], vscale=attrs["vscale"])
+        nf.maxLength = int(attrs["maxLength"])
+        nf.ishappy = bool(attrs["ishappy"])
+        nf.isReal = np.asarray(attrs["isReal"])
+        return nf
+
+    def writeHDF5(self, fh):
+        # Write the coefficients
+        fd = fh.create_dataset('poly', data=self.coeffs)
+        fd.attrs["eps"] = self.eps
+        fd.attrs["hscale"] = self.hscale
+        fd.attrs["vscale"] = self.vscale
+        fd.attrs["maxLength"] = self.maxLength
+        fd.attrs["ishappy"] = self.ishappy
+        fd.attrs["isReal"] = self.isReal
+
     def __deepcopy__(self, memo):
         id_self = id(self)
         _copy = memo.get(id_self)
-- 
2.43.0


From b1ace05c5377b4ff3ee12d10294358e06f8963f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 078/133] fix: read every kind of solution state

---
 funpy/vectorspaces/base_state.py | 18 +++++++++++++++++-
 funpy/vectorspaces/cont_state.py | 23 -----------------------
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/funpy/vectorspaces/base_state.py b/funpy/vectorspaces/base_state.py
index 0f28088..04f8d4c 100644
--- a/funpy/vectorspaces/base_state.py
+++ b/funpy/vectorspaces/base_state.py
@@ -7,7 +7,7 @@ from numbers import Number
 
 import numpy as np
 
-from ..fun import norm2, minandmax
+from ..fun import Fun, norm2, minandmax
 from ..fun import innerw as fun_innerw
 from .namespace import Namespace
 from .parameter import Parameter
@@ -197,6 +197,22 @@ class BaseState(np.lib.mixins.NDArrayOperatorsMixin):
             yield (par.name, par.value)
 
     """ I/O support """
+    @classmethod
+    def from_hdf5(cls, hdf5_file):
+        funcs = [name for name in hdf5_file if name.startswith('funcs')]
+        reals = [name for name in hdf5_file if name.startswith('reals')]
+        nfuncs = np.empty(len(funcs), dtype=object)
+        nreals = np.empty(len(reals), dtype=object)
+
+        for i in range(len(funcs)):
+            nfuncs[i] = Fun.from_hdf5(hdf5_file['funcs{}'.format(i)])
+
+        for i in range(len(reals)):
+            nreals[i] = Parameter.from_hdf5(hdf5_file['reals{}'.format(i)])
+
+        return cls(ns=Namespace.from_hdf5(hdf5_file['ns']), weights=hdf5_file['weights'][:],
+                   funcs=nfuncs, reals=nreals)
+
     def writeHDF5(self, fh):
         fh.create_dataset('weights', data=self.weights)
         fh.create_dataset('signature', data=np.asarray(self.signature, dtype=int))
diff --git a/funpy/vectorspaces/cont_state.py b/funpy/vectorspaces/cont_state.py
index 406d56e..b11da8c 100644
--- a/funpy/vectorspaces/cont_state.py
+++ b/funpy/vectorspaces/cont_state.py
@@ -3,11 +3,9 @@
 # Author: Andreas Buttenschoen
 import numpy as np
 from copy import deepcopy
-import warnings
 
 from ..fun import Fun, wkpnorm, norm, norm2, sturm_norm, sturm_norm_alt
 
-from .namespace import Namespace
 from .base_state import BaseState
 from .parameter import Parameter
 
@@ -35,27 +33,6 @@ class ContinuationState(BaseState):
         # Sync namespace
         self.sync_ns()
 
-    @classmethod
-    def from_hdf5(cls, hdf5_file):
-        funcs = np.empty(1, dtype=object)
-        reals = np.empty(1, dtype=object)
-        for gname, grp in hdf5_file.items():
-            if 'func' in gname:
-                funcs[0] = Fun.from_hdf5(grp)
-            elif 'real' in gname:
-                reals[0] = Parameter.from_hdf5(grp)
-            elif 'weights' in gname:
-                weights = grp[:]
-            elif 'ns' in gname:
-                ns = Namespace.from_hdf5(grp)
-            elif 'signature' in gname:   # Silence warning!
-                pass
-            else:
-                warnings.warn('Unknown \"{}\" element encountered in HDF5 File!'.format(gname),
-                              RuntimeWarning)
-
-        return cls(ns=ns, weights=weights, funcs=funcs, reals=reals)
-
     @classmethod
     def from_coeffs(cls, coeffs, pname, n_funs, *args, **kwargs):
         assert (coeffs.size - 1) % n_funs == 0, 'coeffs does not have correct size!'
-- 
2.43.0


From 901276b541cb259a92b73c6fec37686743f3e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 079/133] fix: functions that are not resolved within the
 length limit are not reported as resolved

---
 funpy/cheb/chebtech.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 181788f..4d89f1d 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -34,7 +34,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
         # add varying interval support!
         self.hscale = kwargs.pop('hscale', 1)
         self.maxLength = kwargs.pop('maxLength', 1 + 2**14)
-        self.ishappy = kwargs.pop('ishappy', False)
+        ishappy = kwargs.pop('ishappy', None)
+        self.ishappy = bool(ishappy)
 
         if op is not None:
             self.coeffs = np.zeros((0, 0), order='F')
@@ -56,9 +57,9 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
                                     strategy=kwargs.pop('resample', 'nested'))
                     self.populate(refine)
 
-        # Update the happiness status
+        # Update the happiness status, unless it was given or determined above
         assert self.coeffs.size > 0, 'Something went wrong during chebfun construction!'
-        if not self.ishappy:
+        if ishappy is None and (op is None or isinstance(op, np.ndarray)):
             self.ishappy, _ = self.happy()
 
         # call simplify - this will also check whether I am happy
-- 
2.43.0


From 87e1d9a700b95505ec2f2093e962a5c730bb016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 080/133] fix: converting between ultraspherical bases leaves
 the input alone and handles constants

---
 funpy/ultra.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/funpy/ultra.py b/funpy/ultra.py
index 0084bd4..fffa946 100644
--- a/funpy/ultra.py
+++ b/funpy/ultra.py
@@ -56,15 +56,16 @@ def DownJacobiConversion(v, a, b):
     n = v.shape[0]
 
     topRow = np.hstack((1, (a+1)/(a+b+2), (a+1)/(a+b+2) * np.cumprod(np.arange(a+2, a+n) / np.arange(a+b+3,a+b+n+1))))
-    topRow = (-1.0)**np.arange(n) * topRow
+    topRow = (-1.0)**np.arange(n) * topRow[:n]
     tmp = np.multiply(topRow[None, :], v.T)
     vecsum = np.fliplr(np.cumsum(np.fliplr(tmp), 1))
-    ratios = np.hstack((1, -(a+b+3)/(a+1), (np.arange(a+b+5, a+b+2*n, 2) / np.arange(a+b+3, a+b+n+1)) * (1./topRow[2:])))
+    ratios = np.hstack((1, -(a+b+3)/(a+1), (np.arange(a+b+5, a+b+2*n, 2) / np.arange(a+b+3, a+b+n+1)) * (1./topRow[2:])))[:n]
     return np.multiply(ratios, vecsum).T
 
 
 def RightJacobiConversion(v, a, b):
     """ Convert Jacobi (alpha, beta) -> (alpha+1, beta) """
+    v = np.array(v)
     v[1::2] = -v[1::2]
     v = UpJacobiConversion(v, b, a)
     v[1::2] = -v[1::2]
@@ -73,6 +74,7 @@ def RightJacobiConversion(v, a, b):
 
 def LeftJacobiConversion(v, a, b):
     """ Convert Jacobi (alpha+1, beta) -> (alpha, beta) """
+    v = np.array(v)
     v[1::2] = -v[1::2]
     v = DownJacobiConversion(v, b, a)
     v[1::2] = -v[1::2]
@@ -92,12 +94,6 @@ def scl(lam, n):
 
 def ultra2ultra(c, lam_in, lam_out):
     n = len(c) - 1
-    c /= scl(lam_in, n)[:, None]
+    c = c / scl(lam_in, n)[:, None]
     c = jac2jac(c, lam_in - 0.5, lam_in - 0.5, lam_out - 0.5, lam_out - 0.5)
-    c *= scl(lam_out, n)[:, None]
-
-    # FIXME!
-    if c.shape[0] - 1 != n:
-        return c[None, 0, :]
-
-    return c
+    return c * scl(lam_out, n)[:, None]
-- 
2.43.0


From 382e8dc5b7b807089c2d1c011b4795aa4a61a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 081/133] fix: edit sparse arrays as well as sparse matrices

---
 funpy/colloc/sparse/csc.py | 11 ++++++++---
 funpy/colloc/sparse/csr.py | 13 +++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/funpy/colloc/sparse/csc.py b/funpy/colloc/sparse/csc.py
index f2c5ceb..39ddece 100644
--- a/funpy/colloc/sparse/csc.py
+++ b/funpy/colloc/sparse/csc.py
@@ -18,8 +18,13 @@ import scipy.sparse as sps
 #     return a
 
 
+def is_csc(mat):
+    """ True for both sparse matrices and sparse arrays in CSC format """
+    return sps.issparse(mat) and mat.format == 'csc'
+
+
 def delete_col_csc(mat, i):
-    if not isinstance(mat, sps.csc_matrix):
+    if not is_csc(mat):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
     n = mat.indptr[i+1] - mat.indptr[i]
     if n > 0:
@@ -37,7 +42,7 @@ def delete_cols_csc(mat, indices):
     """
         Deletes rows in indices from a csc sparse matrix
     """
-    if not isinstance(mat, sps.csc_matrix):
+    if not is_csc(mat):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
     if not (isinstance(indices, list) or isinstance(indices, np.ndarray)):
         indices = [indices]
@@ -50,7 +55,7 @@ def eliminate_zeros_csc(mat, eps=None):
     """
         Eliminates matrix values that are below machine precision
     """
-    if not isinstance(mat, sps.csc_matrix):
+    if not is_csc(mat):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
 
     if eps is None:
diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index 704e974..7a2ddd4 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -5,11 +5,16 @@ import numpy as np
 import scipy.sparse as sps
 
 
+def is_csr(mat):
+    """ True for both sparse matrices and sparse arrays in CSR format """
+    return sps.issparse(mat) and mat.format == 'csr'
+
+
 def csr_vappend(a, b):
     """ Takes in 2 csr_matrices and appends the second one to the bottom of the first one.
     Much faster than scipy.sparse.vstack but assumes the type to be csr and overwrites
     the first matrix instead of copying it. The data, indices, and indptr still get copied."""
-    if not isinstance(a, sps.csr_matrix) or not isinstance(b, sps.csr_matrix):
+    if not is_csr(a) or not is_csr(b):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     a.data = np.hstack((a.data,b.data))
     a.indices = np.hstack((a.indices,b.indices))
@@ -19,7 +24,7 @@ def csr_vappend(a, b):
 
 
 def delete_row_csr(mat, i):
-    if not isinstance(mat, sps.csr_matrix):
+    if not is_csr(mat):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     n = mat.indptr[i+1] - mat.indptr[i]
     if n > 0:
@@ -37,7 +42,7 @@ def delete_rows_csr(mat, indices):
     """
         Deletes rows in indices from a csr sparse matrix
     """
-    if not isinstance(mat, sps.csr_matrix):
+    if not is_csr(mat):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
     indices = list(indices)
     mask = np.ones(mat.shape[0], dtype=bool)
@@ -49,7 +54,7 @@ def eliminate_zeros(mat, eps=None):
     """
         Eliminates matrix values that are below machine precision
     """
-    if not (isinstance(mat, sps.csr_matrix) or isinstance(mat, sps.csc_matrix)):
+    if not (sps.issparse(mat) and mat.format in ('csr', 'csc')):
         raise ValueError("Work only for CSR / CSC format -- use .tocsr() or .tocsc() first!")
 
     if eps is None:
-- 
2.43.0


From ef8ccc8481a9536f08c8ebd5bdc15432f4fcc770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 082/133] fix: deleting rows and columns of sparse matrices
 keeps the other entries

---
 funpy/colloc/sparse/csc.py | 22 +++++++++-------------
 funpy/colloc/sparse/csr.py | 14 +++++---------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/funpy/colloc/sparse/csc.py b/funpy/colloc/sparse/csc.py
index 39ddece..b4c80aa 100644
--- a/funpy/colloc/sparse/csc.py
+++ b/funpy/colloc/sparse/csc.py
@@ -26,29 +26,25 @@ def is_csc(mat):
 def delete_col_csc(mat, i):
     if not is_csc(mat):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
-    n = mat.indptr[i+1] - mat.indptr[i]
-    if n > 0:
-        mat.data[mat.indptr[i]:-n] = mat.data[mat.indptr[i+1]:]
-        mat.data = mat.data[:-n]
-        mat.indices[mat.indptr[i]:-n] = mat.indices[mat.indptr[i+1]:]
-        mat.indices = mat.indices[:-n]
-    mat.indptr[i:-1] = mat.indptr[i+1:]
-    mat.indptr[i:] -= n
-    mat.indptr = mat.indptr[:-1]
+    i = range(mat.shape[1])[i]
+    start, stop = mat.indptr[i], mat.indptr[i+1]
+    mat.data = np.hstack((mat.data[:start], mat.data[stop:]))
+    mat.indices = np.hstack((mat.indices[:start], mat.indices[stop:]))
+    mat.indptr = np.hstack((mat.indptr[:i], mat.indptr[i+1:] - (stop - start)))
     mat._shape = (mat._shape[0], mat._shape[1]-1)
 
 
 def delete_cols_csc(mat, indices):
     """
-        Deletes rows in indices from a csc sparse matrix
+        Deletes columns in indices from a csc sparse matrix
     """
     if not is_csc(mat):
         raise ValueError("Work only for CSC format -- use .tocsc() first!")
     if not (isinstance(indices, list) or isinstance(indices, np.ndarray)):
         indices = [indices]
-    for index in sorted(indices, reverse=True):
-        delete_col_csc(mat, index)
-    return mat
+    mask = np.ones(mat.shape[1], dtype=bool)
+    mask[list(indices)] = False
+    return mat[:, mask]
 
 
 def eliminate_zeros_csc(mat, eps=None):
diff --git a/funpy/colloc/sparse/csr.py b/funpy/colloc/sparse/csr.py
index 7a2ddd4..54c9d28 100644
--- a/funpy/colloc/sparse/csr.py
+++ b/funpy/colloc/sparse/csr.py
@@ -26,15 +26,11 @@ def csr_vappend(a, b):
 def delete_row_csr(mat, i):
     if not is_csr(mat):
         raise ValueError("Work only for CSR format -- use .tocsr() first!")
-    n = mat.indptr[i+1] - mat.indptr[i]
-    if n > 0:
-        mat.data[mat.indptr[i]:-n] = mat.data[mat.indptr[i+1]:]
-        mat.data = mat.data[:-n]
-        mat.indices[mat.indptr[i]:-n] = mat.indices[mat.indptr[i+1]:]
-        mat.indices = mat.indices[i+1:]
-    mat.indptr[i:-1] = mat.indptr[i+1:]
-    mat.indptr[i:] -= n
-    mat.indptr = mat.indptr[:-1]
+    i = range(mat.shape[0])[i]
+    start, stop = mat.indptr[i], mat.indptr[i+1]
+    mat.data = np.hstack((mat.data[:start], mat.data[stop:]))
+    mat.indices = np.hstack((mat.indices[:start], mat.indices[stop:]))
+    mat.indptr = np.hstack((mat.indptr[:i], mat.indptr[i+1:] - (stop - start)))
     mat._shape = (mat._shape[0]-1, mat._shape[1])
 
 
-- 
2.43.0


From 1899001abd505fb67032e75a25480e1985e0a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 083/133] fix: ultraspherical matrices of every size, with the
 requested format, independent of earlier requests

---
 funpy/colloc/ultraS/matrices.py  | 29 +++++++-------
 funpy/colloc/ultraS/transform.py | 67 +++++++++++++++++---------------
 2 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/funpy/colloc/ultraS/matrices.py b/funpy/colloc/ultraS/matrices.py
index c96261d..c2eebb6 100644
--- a/funpy/colloc/ultraS/matrices.py
+++ b/funpy/colloc/ultraS/matrices.py
@@ -3,7 +3,6 @@
 # Author: Andreas Buttenschoen
 import numpy as np
 import scipy.sparse as sps
-from functools import lru_cache
 
 try:
     from scipy.sparse import csr_array, csc_array, lil_array
@@ -21,9 +20,7 @@ from ..sparse.csr import delete_rows_csr, eliminate_zeros
 from ..sparse.csc import delete_cols_csc
 
 from .transform import sptoeplitz_fast, sphankel
-from .transform import spconvert, spconvert_inv
-
-CACHE_SIZE = 25
+from .transform import spconvert, spconvert_inv, cached_matrix
 
 
 def zeromat(shape, format='csr'):
@@ -35,7 +32,7 @@ def zeromat(shape, format='csr'):
         raise RuntimeError("Unsupported matrix format {0:s}.".format(format))
 
 
-@lru_cache(maxsize=CACHE_SIZE)
+@cached_matrix
 def diffmat(n, m=1, format=None):
     """ Differentiation matrices for ultraspherical spectral method """
     if m > 0:
@@ -49,7 +46,7 @@ def diffmat(n, m=1, format=None):
         return NotImplemented
 
 
-@lru_cache(maxsize=CACHE_SIZE)
+@cached_matrix
 def convertmat(n, K1, K2, format=None):
     """ Conversion matrix used in the ultraspherical spectral method.
 
@@ -68,7 +65,7 @@ def convertmat(n, K1, K2, format=None):
     return S
 
 
-@lru_cache(maxsize=CACHE_SIZE)
+@cached_matrix
 def convertmat_inv(n, K1, K2, format=None):
     """ Conversion matrix from C^{K2 + 1} -> C^{K1} """
     S = eye(n, format=format)
@@ -109,14 +106,16 @@ def multmat(k, f, lam, format=None, eps=np.finfo(float).eps):
         v = np.vstack((2 * c[0], c[1:]))
         M = sptoeplitz_fast(v, format='csr')
         H = csr_array((k, k))
-        H[1:, :-1] = sphankel(c[1:])
+        if k > 1:
+            H[1:, :-1] = sphankel(c[1:])
         M += H
     elif lam == 1:  # Want the C^{lam} C^{lam} Cheb multiplication matrix
         v = np.vstack((2 * c[0], c[1:]))
         M = sptoeplitz_fast(v, format='csr')
         M /= 2
         H = csr_array((k, k))
-        H[:-2, :-2] = sphankel(c[2:] / 2)
+        if k > 2:
+            H[:-2, :-2] = sphankel(c[2:] / 2)
         M -= H
     else:
         # Convert ChebT to a ChebC^{lam}
@@ -129,15 +128,17 @@ def multmat(k, f, lam, format=None, eps=np.finfo(float).eps):
         M1 = 2*lam*Mx
 
         # Construct multiplication operator by a three-term recurrence
-        c = c.squeeze()
+        c = c.ravel()
+        scale = np.max(np.abs(c))
         M = c[0] * M0
-        M = M + c[1] * M1
+        if c.size > 1:
+            M = M + c[1] * M1
         for nn in range(c.size - 2):
             M2 = 2 * (1 + nn + lam)/(nn + 2) * Mx * M1 - (nn + 2 * lam) / (nn + 2) * M0
             M = M + c[nn+2] * M2
             M0 = M1
             M1 = M2
-            if np.all(np.abs(c[nn + 3:]) < eps):
+            if np.all(np.abs(c[nn + 3:]) <= eps * scale):
                 break
 
         # Extract the sub-matrix
@@ -162,7 +163,7 @@ def intmat(k, format=None):
         i.e. a matrix having only a first non-zero row, with the first row being filled by the
         Curtis-Clenshaw weights for integration.
     """
-    w = np.hstack((2, 0, 2 / (1 - np.arange(2, k)**2)))
+    w = np.hstack((2, 0, 2 / (1 - np.arange(2, k)**2)))[:k]
     # set all odd terms to zero -> they don't contribute to the integral!
     w[1::2] = 0
     I = lil_array((k, k))
@@ -183,7 +184,7 @@ def evalfun(n, location):
     # find the collocation points and create an empty functional
     x, _, v, _ = chebpts_type2(n)
     E = np.zeros((1, n))
-    E[0, :] = barymat(location, x, v)
+    E[0, :] = barymat(np.atleast_1d(location), x, v)
     return E
 
 
diff --git a/funpy/colloc/ultraS/transform.py b/funpy/colloc/ultraS/transform.py
index 82053d8..1e09378 100644
--- a/funpy/colloc/ultraS/transform.py
+++ b/funpy/colloc/ultraS/transform.py
@@ -3,12 +3,23 @@
 # Author: Andreas Buttenschoen
 import numpy as np
 import scipy.linalg as LA
-from functools import lru_cache
+from functools import lru_cache, wraps
 from scipy.sparse import spdiags, csr_matrix, diags
 
 CACHE_SIZE = 25
 
 
+def cached_matrix(function):
+    """ Caches the computed matrices; each caller gets its own copy which it is free to change """
+    cached = lru_cache(maxsize=CACHE_SIZE)(function)
+
+    @wraps(function)
+    def wrapper(*args, **kwargs):
+        return cached(*args, **kwargs).copy()
+
+    return wrapper
+
+
 def find(array):
     """ Returns row, col, v """
     if len(array.shape) == 1:
@@ -37,11 +48,12 @@ def sptoeplitz_fast(col, format=None):
             T = csr_matrix(T).asformat(format)
     else:
         # locate non-zero diagonals
-        ic, jc, sc = find(col)
+        ic, jc, sc = find(col.ravel())
+        upper = ic > 0
 
         # use spdiags for construction
-        d = np.hstack((ic[1:], -ic))
-        B = np.tile(np.hstack((sc[1:], sc)), (n, 1)).T
+        d = np.hstack((ic[upper], -ic))
+        B = np.tile(np.hstack((sc[upper], sc)), (n, 1)).T
         T = spdiags(B, d, n, n, format=format)
 
     return T
@@ -53,27 +65,17 @@ def sptoeplitz(col, row, format=None):
     n = row.size
 
     if m < 1e2 and n < 1e2:
-        if np.count_nonzero(col) == 1 and np.count_nonzero(row) == 1:
-            Ic = np.nonzero(col.squeeze())[0]
-            Ir = np.nonzero(row.squeeze())[0]
-            if Ic == 0:
-                T = spdiags(col[Ic] * np.ones(m), 0, m, n, format=format)
-            else:
-                # Diagonals are stored row-wise in the first argument!
-                T = spdiags(np.vstack((col[Ic] * np.ones(m), row[Ir] * np.ones(n))),
-                            np.hstack((-Ic, Ir)), m, n, format=format)
-        else:
-            T = LA.toeplitz(col, row)
-            T = csr_matrix(T).asformat(format)
+        T = LA.toeplitz(col.ravel(), row.ravel())
+        T = csr_matrix(T).asformat(format)
     else:
         # locate non-zero diagonals
-        ic, jc, sc = find(col)
-        row[0] = 0  # not used
-        ir, jr, sr = find(row)
+        ic, jc, sc = find(col.ravel())
+        ir, jr, sr = find(row.ravel())
+        ir, sr = ir[ir > 0], sr[ir > 0]  # the first entry of the row is not used
 
         # use spdiags for construction
         d = np.hstack((ir, -ic))
-        B = np.tile(np.hstack((sr, sc)), (min(m, n), 1)).T
+        B = np.tile(np.hstack((sr, sc)), (n, 1)).T
         T = spdiags(B, d, m, n, format=format)
 
     return T
@@ -82,14 +84,14 @@ def sptoeplitz(col, row, format=None):
 def sphankel(r, format=None):
     """ Sparse Hankel operator """
     n = r.size
-    r = np.flipud(r)
+    r = np.flipud(r.ravel())
     ic, jc, sc = find(r)
 
     B = np.tile(sc, (n, 1)).T
-    return spdiags(B, ic, n, n).tocsr()[:, ::-1]
+    return spdiags(B, ic, n, n).tocsr()[:, ::-1].asformat(format)
 
 
-@lru_cache(maxsize=CACHE_SIZE)
+@cached_matrix
 def spconvert(n, lam, format=None):
     """ Compute sparse representation for the conversion operator
 
@@ -97,16 +99,17 @@ def spconvert(n, lam, format=None):
     """
     assert lam >= 0, 'lam must be non-negative!'
     if lam == 0:
-        dg = 0.5 * np.ones(n - 2)
-        return spdiags(np.hstack((np.array([[1, 0.5], [0, 0]]), np.vstack((dg, -dg)))),
-                       [0, 2], n, n, format=format)
+        dg = np.hstack((1, 0.5 * np.ones(n - 1)))
     else:
-        dg = lam / (lam + np.arange(2, n))
-        return spdiags(np.hstack((np.array([[1, lam / (lam + 1)], [0, 0]]), np.vstack((dg, -dg)))),
-                       [0, 2], n, n, format=format)
+        dg = lam / (lam + np.arange(n))
+
+    if n <= 2:
+        return spdiags(dg, 0, n, n, format=format)
+
+    return spdiags(np.vstack((dg, -dg)), [0, 2], n, n, format=format)
 
 
-@lru_cache(maxsize=CACHE_SIZE)
+@cached_matrix
 def spconvert_inv(n, lam, format=None):
     """ Computes sparse representation of the conversion operator from
 
@@ -117,7 +120,7 @@ def spconvert_inv(n, lam, format=None):
 
     if lam == 0:
         dg = np.hstack((1, 2 * np.ones(n - 1)))
-        return diags(nn * [dg], np.arange(0, n, 2))
+        return diags(nn * [dg], np.arange(0, n, 2), format=format)
     else:
         dg = np.hstack((1, (lam + np.arange(1, n, 1)) / lam))
-        return diags(nn * [dg], np.arange(0, n, 2))
+        return diags(nn * [dg], np.arange(0, n, 2), format=format)
-- 
2.43.0


From b5b8ba9205c02ee0d1e31be7bacd701cc2e305d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 084/133] fix: roots of a zero column

---
 funpy/cheb/detail.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/cheb/detail.pyx b/funpy/cheb/detail.pyx
index 6abb2df..7653135 100644
--- a/funpy/cheb/detail.pyx
+++ b/funpy/cheb/detail.pyx
@@ -611,7 +611,7 @@ def roots_scalar(f, eps=1.48e-8):
     splitPoint = -0.004849834917525
 
     # Trivial case for f constant:
-    if f.shape[0] == 1:
+    if f.shape[0] == 1 or not np.any(f.coeffs):
         if f.coeffs[0, 0] == 0:
             r = [0]
         else:
-- 
2.43.0


From fe516400815e7701889e3c04fbf32a1e0afc25d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 085/133] fix: collocation matrices of constants and
 multiplication

---
 funpy/cheb/diff.py                 | 7 +++----
 funpy/colloc/valsDiscretization.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/funpy/cheb/diff.py b/funpy/cheb/diff.py
index 64dbc27..f4cdd69 100644
--- a/funpy/cheb/diff.py
+++ b/funpy/cheb/diff.py
@@ -35,11 +35,10 @@ def diffmat(x, k=1):
 
     if N == 0:
         return None
-    elif N == 1:
-        return np.zeros((0, 0))
-
-    if k == 0:
+    elif k == 0:
         return np.eye(N)
+    elif N == 1:
+        return np.zeros((1, 1))
 
     # get the barycentric weights
     w = bary_weights(N)
diff --git a/funpy/colloc/valsDiscretization.py b/funpy/colloc/valsDiscretization.py
index d404207..dec6a12 100644
--- a/funpy/colloc/valsDiscretization.py
+++ b/funpy/colloc/valsDiscretization.py
@@ -47,7 +47,7 @@ class valsDiscretization(OpDiscretization):
 
     def mult(self, f):
         """ The multiplications matrix -> for value collocations this is simply the diagonal """
-        return diags(f.values)
+        return diags(np.ravel(f.values))
 
     def rhs(self):
         """ Discretize the right hand side of a linear system """
-- 
2.43.0


From 1ba27f16655b21f69394c608842cd2e3c1523709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 086/133] fix: Fourier multiplication matrices by constants and
 by functions with many modes

---
 funpy/colloc/trigspec/matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/trigspec/matrices.py b/funpy/colloc/trigspec/matrices.py
index 2318ffe..f0e61d2 100644
--- a/funpy/colloc/trigspec/matrices.py
+++ b/funpy/colloc/trigspec/matrices.py
@@ -50,7 +50,7 @@ def multmat(k, f, format=None):
     # Multiplication using a scalar is simple!
     if n == 1:
         # the function f is a scalar
-        return np.asscalar(c) * eye(k)
+        return c.item() * eye(k)
 
     # Deal with the even case
     if np.remainder(n, 2) == 0:
@@ -67,7 +67,7 @@ def multmat(k, f, format=None):
         col = np.hstack((c[Na:],    np.zeros(k-Na-1)))
         row = np.hstack((c[Na::-1], np.zeros(k-Na-1)))
     else:  # truncate
-        col = c[Na:k-Na-1]
+        col = c[Na:Na+k]
         row = c[Na:Na-k:-1]
 
     return sptoeplitz(col, row, format=format)
-- 
2.43.0


From 2f37d3abf8b0735b73e95b4b5994f903ed910f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:27 +0000
Subject: [PATCH 087/133] fix: periodic differentiation matrices of third and
 higher order

---
 funpy/colloc/trigcolloc/matrices.py | 30 +++++++++--------------------
 funpy/trig/trigtech.py              |  2 +-
 2 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/funpy/colloc/trigcolloc/matrices.py b/funpy/colloc/trigcolloc/matrices.py
index e640b95..e780fd4 100644
--- a/funpy/colloc/trigcolloc/matrices.py
+++ b/funpy/colloc/trigcolloc/matrices.py
@@ -5,7 +5,7 @@ import numpy as np
 from functools import lru_cache
 import scipy.sparse as sps
 import scipy.linalg as LA
-from scipy.fft import ifft, fft
+from scipy.fft import ifft
 from scipy.sparse import eye, issparse
 
 from ..sparse.csr import delete_rows_csr
@@ -23,8 +23,8 @@ def diffmat(n, m=1, format=None):
     """
     if n == 0:
         return NotImplemented
-    elif n == 1:
-        return np.asarray(0)
+    elif n == 1 and m > 0:
+        return np.zeros((1, 1))
 
     # Grid point spacing
     h = 2. * np.pi / n
@@ -67,29 +67,17 @@ def diffmat(n, m=1, format=None):
             csc_cot = (1. / np.sin(0.5 * v * h)**2) * (1. / np.tan(0.5 * h * v))
             column = np.hstack((0, 3./4 * csc_cot - np.pi**2 / 2 / h**2 / np.tan(0.5 * h * v)))
 
-        column[::2] *= -1.0
+        column[1::2] *= -1.0
         row = column[np.roll(np.arange(n)[::-1], 1)]
         D = LA.toeplitz(column, row)
 
-    elif m == 4:
-        v = np.arange(1, n)
-        csc = 1. / np.sin(0.5 * h * v)
-        cot = 1. / np.tan(0.5 * h * v)
-        if np.remainder(n, 2):  # n is odd
-            column = np.hstack(())
-        else:   # n even
-            column = np.hstack(())
-
-        column[::2] *= -1.0
-        D = LA.toeplitz(column)
-
     else:
-        if np.remainder(n, 2):  # n odd
-            column = np.hstack(())
-        else:
-            column = np.hstack(())
+        # the first column from the Fourier representation of the derivative
+        k = np.fft.ifftshift(np.arange(n) - n // 2)
+        if np.remainder(n, 2) == 0 and np.remainder(m, 2):
+            k[n // 2] = 0
 
-        D = np.real(ifft(column * fft(eye(n))))
+        D = LA.circulant(np.real(ifft((1j * k)**m)))
 
     # scale from [-pi, pi) to [-1, 1)
     D *= (np.pi**m)
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index 732aa7e..e5a28b9 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -789,7 +789,7 @@ def diffmat(self, n, k=1):
             row = col
         else:
             # Form the first column using fft
-            n3 = (-n/2)*np.remainder(k+1, 1)*np.ones(np.remainder(n+1, 2))
+            n3 = (-n/2)*np.remainder(k+1, 2)*np.ones(np.remainder(n+1, 2))
             waveNumber = 1j*np.hstack((np.arange(n1+1), n3, np.arange(-n1, 0)))
             col = np.pi**k * np.real(ifft(waveNumber**k * fft(np.eye(1, n))))
 
-- 
2.43.0


From 77a8f1f5110435f1c0b36554ae792f0a8cc8b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 088/133] fix: periodic collocation: differentiation, points
 and evaluation

---
 funpy/colloc/trigcolloc/matrices.py   | 13 +++++++++++++
 funpy/colloc/trigcolloc/trigcolloc.py | 24 +++++++++++++-----------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/funpy/colloc/trigcolloc/matrices.py b/funpy/colloc/trigcolloc/matrices.py
index e780fd4..182e015 100644
--- a/funpy/colloc/trigcolloc/matrices.py
+++ b/funpy/colloc/trigcolloc/matrices.py
@@ -83,6 +83,19 @@ def diffmat(n, m=1, format=None):
     D *= (np.pi**m)
     return D
 
+def evalmat(y, n):
+    """ Maps values at the n equispaced points in [-1, 1) to values of the trigonometric
+    interpolant at the points y
+    """
+    d = 0.5 * np.pi * (np.expand_dims(y, axis=1) - np.linspace(-1, 1, n + 1)[:-1])
+    k = np.arange(1, (n + 1) // 2)
+    E = 1. + 2. * np.sum(np.cos(2. * np.expand_dims(d, axis=2) * k), axis=2)
+    if np.remainder(n, 2) == 0:
+        E += np.cos(n * d)
+
+    return E / n
+
+
 def multmat(k, f, lam, chop=False, eps=1.48e-8):
     """ Multiplication matrices for ultraS
 
diff --git a/funpy/colloc/trigcolloc/trigcolloc.py b/funpy/colloc/trigcolloc/trigcolloc.py
index 3b332f0..2eafd06 100644
--- a/funpy/colloc/trigcolloc/trigcolloc.py
+++ b/funpy/colloc/trigcolloc/trigcolloc.py
@@ -9,10 +9,9 @@ import scipy.sparse as sps
 from scipy.sparse import eye
 
 from ...trig import trigtech, trigpts
-from ...cheb import diffmat
 
 from ..valsDiscretization import valsDiscretization
-from .matrices import blockmat
+from .matrices import blockmat, diffmat, evalmat
 
 
 class trigcolloc(valsDiscretization):
@@ -47,28 +46,31 @@ class trigcolloc(valsDiscretization):
         assert locations >= self.domain[0] and locations <= self.domain[1], \
                 'Evaluation point %.4g must be inside the domain %s!' % (locations, self.domain)
 
-        # find the collocation points and create an empty functional
-        x, _, v, _ = self.functionPoints()
-        return barymat(locations, x, v)
+        return evalmat(self.mapping.bwd(locations), np.sum(self.dimension))
+
+    def scaled_points(self, N):
+        """ The equispaced points and their weights on the domain """
+        x, w = trigpts(N)
+        return self.mapping.fwd(x), 0.5 * (self.domain[1] - self.domain[0]) * w
 
     def functionPoints(self):
-        return self.points(lambda N: trigpts(N, interval=self.domain))
+        return self.points(self.scaled_points)
 
     def equationPoints(self):
-        return self.points(lambda N: trigpts(N, interval=self.domain))
+        return self.points(self.scaled_points)
 
     def diff(self, k=1, axis=0, **unused_kwargs):
         domain = self.domain
         n = self.dimension
         if k == 0:
-            return eye(onp.sum(n))
+            return np.eye(np.sum(n))
 
         # assuming that we only have on interval
-        blocks = onp.empty(self.numIntervals, dtype=object)
+        blocks = np.empty(self.numIntervals, dtype=object)
         for i in range(self.numIntervals):
             length = domain[i+1] - domain[i]
-            blocks[i] = diffmat(self.x, k=k) * (2/length)**k
-        return LA.block_diag(blocks)
+            blocks[i] = diffmat(n[i], m=k) * (2/length)**k
+        return LA.block_diag(*blocks)
 
     def int(self):
         """ The integration operator for a trigonometric collocation """
-- 
2.43.0


From cb53c1d06fcff646776013e0793b2a59908de3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 089/133] =?UTF-8?q?fix:=20rectangular=20projections,=20Fr?=
 =?UTF-8?q?=C3=A9chet=20operators=20and=20exact=20linear=20solves=20can=20?=
 =?UTF-8?q?be=20built=20and=20applied?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 funpy/colloc/projection.py          | 4 ++--
 funpy/linalg/exact_linear_solver.py | 4 ++--
 funpy/newton/FrechetDeflated.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/colloc/projection.py b/funpy/colloc/projection.py
index be2e350..df65a9d 100644
--- a/funpy/colloc/projection.py
+++ b/funpy/colloc/projection.py
@@ -11,13 +11,13 @@ class RectangularProjection(LinearOperator):
         in collocating differential operators.
     """
     def __init__(self, matrix, adjoint=None, dtype=None, *args, **kwargs):
+        super().__init__(dtype=np.dtype(dtype), shape=matrix.shape)
+
         # The projection matrix
         self.mat = matrix
         self.adj = adjoint
 
         # Basic setup for the linear operator
-        self.shape = self.mat.shape
-        self.dtype = np.dtype(dtype)
         self.explicit = False
 
     def _matvec(self, x):
diff --git a/funpy/linalg/exact_linear_solver.py b/funpy/linalg/exact_linear_solver.py
index 7e36bf7..d50aa33 100644
--- a/funpy/linalg/exact_linear_solver.py
+++ b/funpy/linalg/exact_linear_solver.py
@@ -18,7 +18,7 @@ class ExactLinearSolver:
         self.to_fun = to_fun
 
         # Is the matrix sparse?
-        if isinstance(A, LAS.LinearOperator): A = A.to_matrix()
+        if hasattr(A, 'to_matrix'): A = A.to_matrix()
         sparse = sps.issparse(A)
 
         # What linear method are we using?
@@ -29,7 +29,7 @@ class ExactLinearSolver:
         elif method == 'lu' and not sparse:
             self.solver = DenseLUSolver(A, *args, **kwargs)
         elif method == 'qr':
-            self.solver = QRCholesky(A, rank=self.A.shape[0], *args, **kwargs)
+            self.solver = QRCholesky(A, rank=self.m, *args, **kwargs)
         else:
             raise RuntimeError(f'Unknown exact linear solver {method} requested!')
 
diff --git a/funpy/newton/FrechetDeflated.py b/funpy/newton/FrechetDeflated.py
index 8f7e5b5..6aaa6bb 100644
--- a/funpy/newton/FrechetDeflated.py
+++ b/funpy/newton/FrechetDeflated.py
@@ -50,13 +50,13 @@ class FrechetDeflated(LinearOperator):
         """
         # If no known solutions we bail and simply compute the regular part
         if self.functional is None:
-            return self.mat._mul_vector(x)
+            return self.mat @ x
 
         # Compute the derivative of eta
         deta = self.functional(x)
 
         # The b here should be just F(u)
-        return self.eta * self.mat._mul_vector(x) + self.b * deta
+        return self.eta * self.mat @ x + self.b * deta
 
     def _rmatvec(self, y):
         assert False, ''
-- 
2.43.0


From 96dd01962eb1528c4618b5b2d5097b7ec05b612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 090/133] fix: differential order of systems whose equations
 are led by other unknowns

---
 funpy/colloc/source/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 41fb84a..f4615bd 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -125,7 +125,7 @@ class Source:
         return len(self.cts_src)
 
     def get_diff_order(self, srcs):
-        return [0] + [ode_order(src, func) for src, func in zip(srcs, self.functions)]
+        return [0] + [ode_order(src, func) for src in srcs for func in self.functions]
 
     def get_function_names(self, type=None, constant=False):
         function_names = []
-- 
2.43.0


From e0bd4cf109ab5b34a01927f32403d2be2864b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 091/133] fix: integral conditions

---
 funpy/colloc/chebcolloc/chebcolloc2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/chebcolloc/chebcolloc2.py b/funpy/colloc/chebcolloc/chebcolloc2.py
index a1ee7f9..a6d8da5 100644
--- a/funpy/colloc/chebcolloc/chebcolloc2.py
+++ b/funpy/colloc/chebcolloc/chebcolloc2.py
@@ -92,5 +92,6 @@ def diff(f, n=1, axis=0, *args, **kwargs):
 
 @implements(np.sum)
 def sum(f, *args, **kwargs):
-    pass
+    _, w, _, _ = f.functionPoints()
+    return np.expand_dims(w, axis=0) @ f.values
 
-- 
2.43.0


From 18f7ad01abfe814b6144334a7dd46cf177a4cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 092/133] fix: boundary conditions of systems, given as
 callables, or with parameters

---
 funpy/colloc/LinSys.py                         |  5 +++--
 funpy/colloc/chebOpConstraint.py               | 15 ++++++++++-----
 funpy/colloc/source/BoundaryConditionSource.py |  3 +++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/funpy/colloc/LinSys.py b/funpy/colloc/LinSys.py
index 18ac750..fd67b3f 100644
--- a/funpy/colloc/LinSys.py
+++ b/funpy/colloc/LinSys.py
@@ -135,8 +135,9 @@ class LinSys(LinSysBase):
         for bc_op in src.bcs:
             try:
                 print('op_name = ', bc_op.symbol_name)
-                constraint = ChebOpConstraint(op=self.ns[bc_op.symbol_name],
-                                              domain=src.domain)
+                op = bc_op.coeffs if callable(bc_op.coeffs) else self.ns[bc_op.symbol_name]
+                constraint = ChebOpConstraint(op=op, domain=src.domain,
+                                              nfuns=len(src.functions))
 
                 self.constraints.append(constraint)
             except KeyError:
diff --git a/funpy/colloc/chebOpConstraint.py b/funpy/colloc/chebOpConstraint.py
index 5d4b1dc..b914c23 100644
--- a/funpy/colloc/chebOpConstraint.py
+++ b/funpy/colloc/chebOpConstraint.py
@@ -20,17 +20,21 @@ class ChebOpConstraint:
                 required for constraint collocation.
 
             values: Equal value of the constraint.
+
+            nfuns: The number of functions the constraint takes.
         """
         self.op     = kwargs.get('op', None)
         self.domain = kwargs.pop('domain', [-1, 1])
         self.values = np.atleast_1d(kwargs.get('values', 0.0))
 
         # Assemble dummy function
-        zf = zeros(1, domain=self.domain)
-        offset = -self.residual(zf)
+        self.nfuns = kwargs.get('nfuns', 1)
+        zf = zeros(self.nfuns, domain=self.domain)
 
+        # The linear part of the constraint; its offset may depend on parameters
+        # and must thus be computed whenever the functional is assembled.
         def functional(*args):
-            return self.op(*args) + offset
+            return self.op(*args) - self.op(*zf)
 
         self.functional = functional
 
@@ -47,8 +51,9 @@ class ChebOpConstraint:
         return self
 
     def __call__(self, n):
-        colloc = chebcolloc2(values=np.eye(n), domain=self.domain)
-        return self.functional(colloc)
+        collocs = [chebcolloc2(values=np.eye(n, n * self.nfuns, k * n), domain=self.domain)
+                   for k in range(self.nfuns)]
+        return self.functional(*collocs)
 
     def residual(self, u):
         """ Compute the residual of the functional """
diff --git a/funpy/colloc/source/BoundaryConditionSource.py b/funpy/colloc/source/BoundaryConditionSource.py
index d38b557..d4b651a 100644
--- a/funpy/colloc/source/BoundaryConditionSource.py
+++ b/funpy/colloc/source/BoundaryConditionSource.py
@@ -42,6 +42,9 @@ class BoundaryConditionSource:
         # Store symbol name of function
         self.symbol_name = '{0:s}'.format(name)
 
+        # Python callables are used as they are
+        if callable(ccode): return
+
         # Write to the code gen
         #
         # TODO: A current limitation of the chebcolloc2 code is that chebcollocs
-- 
2.43.0


From dfd40acf0545746f7daf15935a7b8598459c27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 093/133] fix: linearisation of equations with several integral
 terms or products with integrals

---
 funpy/colloc/source/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index f4615bd..b54a0de 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -538,7 +538,10 @@ class Source:
             DM[i, j] = syp.expand(DM[i, j])
 
             # Collect integral terms so that we can extract them!
-            integrals = [arg for arg in preorder_traversal(DM[i, j]) if isinstance(arg, Integral)]
+            integrals = []
+            for arg in preorder_traversal(DM[i, j]):
+                if isinstance(arg, Integral) and arg.has(pfun) and arg not in integrals:
+                    integrals.append(arg)
             for dpfun in integrals:
                 # Extract the coefficient
                 ex = syp.simplify(DM[i, j].coeff(dpfun), ratio=1)
-- 
2.43.0


From 5898eb38b34516da60f8d46e6c0ee2fd928dae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 094/133] fix: parameter derivatives of equations without the
 parameter or without constraints

---
 funpy/colloc/source/compiler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index b54a0de..3560cda 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -243,6 +243,8 @@ class Source:
 
         """
         for type in ['eqn', 'cts']:
+            if len(getattr(self, type + '_src')) == 0: continue
+
             # Get the action of the linearization
             daction = self.syp_src['d' + type].action
 
@@ -462,12 +464,10 @@ class Source:
             # Look up parameter symbol and differentiation + simplify
             p = self.ns[cpar]
 
-            # TODO improve in the future!
-            if p in src.free_symbols:
-                p_src = simplify(syp.diff(src, p), ratio=1)
-            else:
-                ssrc = self.syp_src['cts']
-                p_src = simplify(syp.diff(ssrc, p), ratio=1)
+            # The residual is the sum of the equations and the constraints
+            p_src = syp.diff(src, p)
+            if self.n_cts > 0: p_src += syp.diff(self.syp_src['cts'], p)
+            p_src = simplify(p_src, ratio=1)
 
             # Create output function for derivatives!
             func = NonlinearVectorFunctionSource(p_src, self.ftype, self.domain,
-- 
2.43.0


From b5a421211daf23bdec4ef23b59fcdb27f7ee2a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 095/133] fix: compiled equations do not assume that parameters
 are positive

---
 funpy/colloc/source/support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/source/support.py b/funpy/colloc/source/support.py
index 566c867..706de75 100644
--- a/funpy/colloc/source/support.py
+++ b/funpy/colloc/source/support.py
@@ -152,7 +152,7 @@ def sympy_base_program(function_names, constant_function_names,
     cg.write(35 * '#')
     cg.write('# Equation parameters')
     for p_name, p_value in parameters.items():
-        cg.write('{0} = symbols("{0}", real=True, positive=True)'.format(p_name))
+        cg.write('{0} = symbols("{0}", real=True)'.format(p_name))
 
     # Create simple functions to debug parameter values etc.
     cg.write('')
-- 
2.43.0


From b1406ad3a4b2a2675b117a22ce854beefffcfce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 096/133] fix: sums of integral operators

---
 funpy/colloc/quasiOpBlock.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/funpy/colloc/quasiOpBlock.py b/funpy/colloc/quasiOpBlock.py
index eeebd75..5202cbb 100644
--- a/funpy/colloc/quasiOpBlock.py
+++ b/funpy/colloc/quasiOpBlock.py
@@ -121,13 +121,9 @@ class QuasiOpBlock:
         # see whether we need to add or just take the one that has one!
         # TODO: Should we just by default set the coefficient to zero?
         if self.has_nonlocal and other.has_nonlocal:
-            new_icoeffs = np.empty_like(self.icoeffs, dtype=object)
-            for i in range(self.icoeffs.size):
-                new_icoeffs[i] = other.icoeffs[i] + self.icoeffs[i]
-
-            new_integrand = np.empty_like(self.integrand, dtype=object)
-            for i in range(self.integrand.size):
-                new_integrand[i] = other.integrand[i] + self.integrand[i]
+            # The sum of c_1 ∫ d_1 u and c_2 ∫ d_2 u has both terms
+            new_icoeffs = np.concatenate((self.icoeffs, other.icoeffs))
+            new_integrand = np.concatenate((self.integrand, other.integrand))
 
         elif self.has_nonlocal and not other.has_nonlocal:
             new_icoeffs = self.icoeffs
-- 
2.43.0


From 64e5a28a7f1edfb51a2dbe47ec066da4211c3152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 097/133] fix: parameter derivatives of bilinear forms by name,
 and of |parameter|

---
 funpy/colloc/linearFunctional.py | 6 +++---
 funpy/colloc/source/compiler.py  | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/funpy/colloc/linearFunctional.py b/funpy/colloc/linearFunctional.py
index 28523dc..33ed78e 100644
--- a/funpy/colloc/linearFunctional.py
+++ b/funpy/colloc/linearFunctional.py
@@ -74,7 +74,7 @@ class linearFunctional:
             # Use the list call method
             self._call = self.call_list
 
-    def call_dict(self, u, up, pname=None, *args, **kwargs):
+    def call_dict(self, u, up, pname=None):
         if pname is None: pname = u.cpar
 
         try:
@@ -84,8 +84,8 @@ class linearFunctional:
 
         return np.hstack([func(*u, *up) for func in funcs])
 
-    def call_list(self, u, up, *args, **kwargs):
+    def call_list(self, u, up, pname=None):
         return np.hstack([func(*u, *up) for func in self.functions])
 
     def __call__(self, u, up, pname=None, *args, **kwargs):
-        return self._call(u, up, *args, **kwargs)
+        return self._call(u, up, pname=pname)
diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 3560cda..97f3405 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -461,13 +461,14 @@ class Source:
         for cpar in cpars:
             assert cpar in self.parameter_names.keys(), '{} not a known parameter!'.format(cpar)
 
-            # Look up parameter symbol and differentiation + simplify
+            # Look up parameter symbol and differentiation
             p = self.ns[cpar]
 
             # The residual is the sum of the equations and the constraints
             p_src = syp.diff(src, p)
             if self.n_cts > 0: p_src += syp.diff(self.syp_src['cts'], p)
-            p_src = simplify(p_src, ratio=1)
+            # No simplify here: it may introduce Piecewise, which functions do not support
+            p_src = p_src.doit()
 
             # Create output function for derivatives!
             func = NonlinearVectorFunctionSource(p_src, self.ftype, self.domain,
-- 
2.43.0


From d0bda4bb03870712780c0ae57468ed8fa1e709c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 098/133] fix: integral terms of periodic operators, and
 conversion of functions between bases

---
 funpy/colloc/trigspec/trigspec.py | 5 ++++-
 funpy/fun.py                      | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/funpy/colloc/trigspec/trigspec.py b/funpy/colloc/trigspec/trigspec.py
index 233dff7..01998b4 100644
--- a/funpy/colloc/trigspec/trigspec.py
+++ b/funpy/colloc/trigspec/trigspec.py
@@ -106,7 +106,10 @@ class trigspec(coeffsDiscretization):
 
         # check if we have an integral term defined!
         if info[-1]:
-            L += self.mult(source.getICoeffs()) * self.int()
+            icoeffs = source.getICoeffs()
+            integrands = source.getIntegrand()
+            for j in range(icoeffs.shape[0]):
+                L += self.mult(icoeffs[j]) * self.int() * self.mult(integrands[j])
 
         # Deal with aggregation terms
         coeff = source.getNlCoeffs()
diff --git a/funpy/fun.py b/funpy/fun.py
index dae81d2..d639518 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -304,7 +304,8 @@ def asfun(obj, *args, **kwargs):
         if obj.type == ftype:
             return obj
 
-        return Fun(op=lambda x: obj(x), type=ftype, domain=obj.domain, *args, **kwargs)
+        kwargs['domain'] = obj.domain
+        return Fun(op=lambda x: obj(x), type=ftype, *args, **kwargs)
 
     elif isinstance(obj, Number) or obj.size == 1:
         return Fun(coeffs=np.reshape(np.asarray(obj, dtype=float), (1, 1), order='F'), *args, **kwargs)
-- 
2.43.0


From af4e008952fc15738e4d7837a986612ea6b6c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:10 +0000
Subject: [PATCH 099/133] fix: signs of sparse determinants, and determinants
 of singular and larger Hessenberg matrices

---
 funpy/linalg/helpers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/funpy/linalg/helpers.py b/funpy/linalg/helpers.py
index eb4ead7..7f6d789 100644
--- a/funpy/linalg/helpers.py
+++ b/funpy/linalg/helpers.py
@@ -43,6 +43,7 @@ def logdet_detail_superlu(lu):
     logdet = np.log(diagL).sum() + np.log(diagU).sum()
 
     swap_sign = minimumSwaps(lu.perm_r)
+    swap_sign += minimumSwaps(lu.perm_c)
     sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
 
     return np.real(sign), np.real(logdet)
@@ -56,9 +57,7 @@ def logdet_detail_umfpack(lu):
     logdet = np.log(diagL).sum() + np.log(diagU).sum() + np.log(diagR).sum()
 
     swap_sign = minimumSwaps(lu.perm_r)
-    sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
-
-    swap_sign = minimumSwaps(lu.perm_c)
+    swap_sign += minimumSwaps(lu.perm_c)
     sign = (-1)**(swap_sign) * np.sign(diagL).prod()*np.sign(diagU).prod()
 
     return np.real(sign), np.real(logdet)
@@ -159,14 +158,14 @@ def slogdet_hessenberg(mat):
 
     for k in range(n-1, 0, -1):
         c, s, r = givensAlgorithm(g[k], mat[k, k-1])
-        logdet += log(abs(r))
+        logdet += log(abs(r)) if r != 0 else -np.inf
         P *= np.sign(r)
 
         g[k-1] = c * (mat[k-1, k-1]) - np.conjugate(s) * g[k-1]
         for j in range(0, k - 1):
             g[j] = c * mat[j, k-1] - np.conjugate(s) * g[j]
 
-    logdet += log(abs(g[0]))
+    logdet += log(abs(g[0])) if g[0] != 0 else -np.inf
     P *= np.sign(g[0])
     return P, logdet
 
@@ -192,13 +191,14 @@ def detH(A):
 
     # TODO: implement in cython.
     for k in range(1, n):
-        # Update the products
+        # Update the products -> p[j] = d[j] A[j+1, j] ... A[k, k-1]
+        p[k-1] = d[k-1]
         for j in range(k):
-            p[j] *= d[j] * A[k, k-1]
+            p[j] *= A[k, k-1]
 
         d[k+1] = A[k, k] * d[k] + np.sum(signs[:k][::-1] * A[:k, k] * p[:k])
 
-    return d[k+1]
+    return d[n]
 
 
 class Determinant:
@@ -213,4 +213,5 @@ class Determinant:
         return self.sign, self.logdet
 
     def det(self):
-        return self.sign * np.exp(self.logdet)
+        sign, logdet = self()
+        return sign * np.exp(logdet)
-- 
2.43.0


From c98f435bf9d9976d11088b6e763530d8d0cb917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:10 +0000
Subject: [PATCH 100/133] fix: completely pivoted LU leaves its input intact,
 null vectors use its permutations

---
 funpy/linalg/lucp.py      |  3 +++
 funpy/linalg/nullspace.py | 18 +++++++++---------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/funpy/linalg/lucp.py b/funpy/linalg/lucp.py
index 698f92f..4d3d907 100644
--- a/funpy/linalg/lucp.py
+++ b/funpy/linalg/lucp.py
@@ -21,6 +21,9 @@ from scipy.sparse import tril, triu, eye
 def lucp(A, tol=1e-8, full=False, format='csr'):
     n, m = A.shape
 
+    # the decomposition is computed in place
+    A = A.copy()
+
     if np.any(np.iscomplex(A)):
         dtype = A.dtype
     elif issubclass(A.dtype.type, numbers.Integral):
diff --git a/funpy/linalg/nullspace.py b/funpy/linalg/nullspace.py
index f485dd0..426ef6a 100644
--- a/funpy/linalg/nullspace.py
+++ b/funpy/linalg/nullspace.py
@@ -32,35 +32,35 @@ def null_vector(A, right=True, left=False, normalize=True):
 
     if right:
         # the right eigenvector
-        phi = np.negative(np.ones(m), dtype=dtype)
+        phi = np.negative(np.ones(m, dtype=dtype))
 
         # Solve for the right null-vector
         # Create the correct right hand side for the backwards solve
-        phi[:m-1] = U.getcol(m-1).toarray().reshape(n)[:n-1]
+        phi[:m-1] = U[:n-1, [m-1]].toarray().reshape(n-1)
 
         # then we must solve: Ustar = nu = u
-        spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        if n > 1: phi[:m-1] = spsolve_triangular(U[:n-1, :m-1], phi[:m-1], lower=False)
 
         # now to compute phi we have to multiply by Q
-        phi = phi[Q]  # Q.dot(phi)
+        phi = phi[np.argsort(Q)]  # Q.dot(phi)
 
         if normalize:
             phi /= np.linalg.norm(phi, ord=2)
 
     if left:
         # the left eigenvector
-        psi = np.negative(np.ones(m), dtype=dtype)
+        psi = np.negative(np.ones(m, dtype=dtype))
 
         # Solve for the left null-vector
         # Create the correct right hand side for the backwards solve
-        L_dual = L.getH()
-        psi[:m-1] = L_dual.getcol(m-1).toarray().reshape(n)[:n-1]
+        L_dual = L.conj().T.tocsr()
+        psi[:m-1] = L_dual[:n-1, [m-1]].toarray().reshape(n-1)
 
         # then we must solve: Lstar w = l
-        spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True, overwrite_A=True)
+        if n > 1: psi[:m-1] = spsolve_triangular(L_dual[:n-1, :m-1], psi[:m-1], lower=False)
 
         # now to compute psi we have to multiply by P^-1
-        psi = P.T.dot(psi)
+        psi = psi[np.argsort(P)]
 
         if normalize:
             psi /= np.linalg.norm(psi, ord=2)
-- 
2.43.0


From 4a444bbe3857ecc3ac31085d4e6c095bef6fe12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:10 +0000
Subject: [PATCH 101/133] fix: determinant of widely bordered systems

---
 funpy/linalg/bemw_solve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/bemw_solve.py b/funpy/linalg/bemw_solve.py
index 1e3a13d..8fb7e77 100644
--- a/funpy/linalg/bemw_solve.py
+++ b/funpy/linalg/bemw_solve.py
@@ -43,8 +43,8 @@ class BEMW:
         if not self.is_singular: self.prepare()
 
     def det(self):
-        # FIXME
-        return self.solver.det() * (self.d - np.dot(self.b, self.beta))
+        # The pivots are the Schur complements of the successive borders
+        return self.solver.det() * self.storage[:, 0].prod()
 
     def prepare(self):
         """
-- 
2.43.0


From 6511c98f830404a2b936149b1359cf6783f27609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 102/133] fix: bordered solves with singular inner matrices:
 permutations, normalisation and undefined names

---
 funpy/linalg/brd_solve.py | 271 ++++++++------------------------------
 1 file changed, 55 insertions(+), 216 deletions(-)

diff --git a/funpy/linalg/brd_solve.py b/funpy/linalg/brd_solve.py
index 863e903..f1210be 100644
--- a/funpy/linalg/brd_solve.py
+++ b/funpy/linalg/brd_solve.py
@@ -52,8 +52,6 @@ class BMatrix:
         # Non-singular matrices
         self.Rbar = self.R[:-1, :-1]
         self.Sbar = self.R[:-1, -1]
-        print('R = ', abs(self.R[-1, -1]))
-
         self.is_singular = abs(self.R[-1, -1]) < tol
         self.solve = self.solve_singular if self.is_singular else self.solve_nonsingular
         self.solve_null = self.solve_null_singular if self.is_singular else self.solve_null_nonsingular
@@ -140,7 +138,7 @@ class BMatrix:
     def solve_null_singular(self):
         # Get the null-vectors
         phi, psi = self.null()
-        return np.hstack((phi, 0))
+        return np.hstack((phi / np.dot(self.b, phi), 0))
 
     def solve_null_nonsingular(self):
         # Prepare
@@ -150,7 +148,6 @@ class BMatrix:
 
         # Solve the system
         z = 1.0 / delta
-        print('delta = ', delta)
         xhat = LA.solve_triangular(self.R, - z * gamma, lower=False)
         return np.hstack((xhat[self.P], z))
 
@@ -191,83 +188,53 @@ def solve(A, b, c, d, f):
     return x
 
 
-def brd_solve_detail(lu, b, c, d, rhs, verify=True):
+def null_vectors(lu):
     """
-        Solve the system:
+        Computes the right and left null-vectors of the rank-1 deficient matrix A, where
 
-        / A  c \ / x \   / f \
-        |      | |   | = |   |
-        \ b  d / \ z /   \ h /
+            Pr A Pc = L U
 
-        when the matrix A is rank 1 deficient. In this case
-        z is expected to be zero if A is singular.
+        and Pr, Pc are stored using the same convention as scipy's SuperLU.
     """
-    n, m = A.shape
+    n, m = lu.shape
 
     # make available
-    L = lu.L
-    U = lu.U
-    perm_c = lu.perm_c
-    perm_r = lu.perm_r
+    L = lu.L.tocsr()
+    U = lu.U.tocsr()
 
-    # Step 2: Compute right null-vector
+    # Right null-vector
     phi       = np.empty(n, dtype=float)
-    phi[:n-1] = U.getcol(m-1).toarray().reshape(n)[:n-1]
+    phi[:n-1] = U[:n-1, [m-1]].toarray().reshape(n - 1)
     phi[n-1]  = -1.0
 
-    # Back-substitute
-    phi[:m-1] = LAS.spsolve_triangular(U[:n-1, :m-1], phi[:n-1], lower=False, overwrite_b=True)
-
-    # Apply permutation
-    phi = phi[perm_c]
-
-    if verify:
-        print('Ax = ', np.max(np.abs(A @ phi)))
-
-    # Step 3: Compute left null-vector
+    # Left null-vector
     psi       = np.empty(m, dtype=float)
-    psi[:m-1] = L.getrow(m-1).toarray().reshape(m)[:m-1]
+    psi[:m-1] = L[[n-1], :m-1].toarray().reshape(m - 1)
     psi[m-1]  = -1.0
 
-    # Back substitute
-    psi[:m-1] = LAS.spsolve_triangular(L.getH()[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True)
-
-    # Apply permutation
-    psi = permutation(psi, perm_r)
+    # Back-substitute
+    if n > 1:
+        phi[:n-1] = LAS.spsolve_triangular(U[:n-1, :m-1], phi[:n-1], lower=False)
+        psi[:m-1] = LAS.spsolve_triangular(L.T.tocsr()[:n-1, :m-1], psi[:m-1], lower=False)
 
-    if verify:
-        print('yA = ', np.max(np.abs(A.T @ psi)))
+    # Apply permutations
+    return phi[lu.perm_c], psi[lu.perm_r]
 
-    # Step 4: Compute a particular solution of A
-    xp     = np.empty(n, dtype=float)
-    xp[:]  = rhs[:n]  # xp = f at the moment
-    psi_f  = np.dot(psi, xp)
-    psi_c  = np.dot(psi, c)
-    z      = psi_f / psi_c
-    xp[:] -= c * z
 
-    # Back-substitute
-    xp[:]    = LAS.spsolve_triangular(L, xp[perm_r], lower=True, overwrite_b=True)
+def particular(lu, f):
+    """ Computes a particular solution of A x = f, where A is rank-1 deficient and f in R[A] """
+    n, m = lu.shape
+    y = LAS.spsolve_triangular(lu.L.tocsr(), permutation(f, lu.perm_r), lower=True)
 
     # Assemble the particular solution
-    xp[:n-1] = LAS.spsolve_triangular(U[:n-1, :m-1], xp[:n-1], lower=False, overwrite_b=True)
-    xp[n-1]  = 0.0
+    if n > 1: y[:n-1] = LAS.spsolve_triangular(lu.U.tocsr()[:n-1, :m-1], y[:n-1], lower=False)
+    y[n-1] = 0.0
 
     # Apply permutation matrix
-    xp = permutation(xp, perm_r)
+    return y[lu.perm_c]
 
-    # Step 5: Compute the solution using the bordering technique
-    alpha = (rhs[-1] - d * z - np.dot(b, xp)) / np.dot(b, phi)
-
-    # Assemble solution
-    rhs[:n] = xp + alpha * phi
-    rhs[n]  = z
 
-    # Return the solution (x z) and the left and right null-vectors of A
-    return rhs, phi, psi
-
-
-def brd_solve(lu, b, c, d, rhs, verify=True):
+def brd_solve(lu, b, c, d, rhs):
     """
         Solve the system:
 
@@ -275,72 +242,26 @@ def brd_solve(lu, b, c, d, rhs, verify=True):
         |      | |   | = |   |
         \ b  d / \ z /   \ h /
 
-        when the matrix A is rank 1 deficient. In this case
-        z is expected to be zero if A is singular.
+        when the matrix A is rank 1 deficient.
     """
-    n, m = A.shape
-
-    # make available
-    L = lu.L
-    U = lu.U
-    perm_c = lu.perm_c
-    perm_r = lu.perm_r
-
-    # Step 2: Compute right null-vector
-    phi       = np.empty(n, dtype=float)
-    phi[:n-1] = U.getcol(m-1).toarray().reshape(n)[:n-1]
-    phi[n-1]  = -1.0
-
-    # Back-substitute
-    phi[:m-1] = LAS.spsolve_triangular(U[:n-1, :m-1], phi[:n-1], lower=False, overwrite_b=True)
-
-    # Apply permutation
-    phi = phi[perm_c]
-
-    if verify:
-        print('Ax = ', np.max(np.abs(A @ phi)))
-
-    # Step 3: Compute left null-vector
-    psi       = np.empty(m, dtype=float)
-    psi[:m-1] = L.getrow(m-1).toarray().reshape(m)[:m-1]
-    psi[m-1]  = -1.0
-
-    # Back substitute
-    psi[:m-1] = LAS.spsolve_triangular(L.getH()[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True)
-
-    # Apply permutation
-    psi = permutation(psi, perm_r)
-
-    if verify:
-        print('yA = ', np.max(np.abs(A.T @ psi)))
-
-    # Step 4: Compute a particular solution of A
-    xp     = np.empty(n, dtype=float)
-    xp[:]  = rhs[:n]  # xp = f at the moment
-    psi_f  = np.dot(psi, xp)
-    psi_c  = np.dot(psi, c)
-    z      = psi_f / psi_c
-    xp[:] -= c * z
+    n, m = lu.shape
 
-    # Back-substitute
-    xp[:]    = LAS.spsolve_triangular(L, xp[perm_r], lower=True, overwrite_b=True)
+    # Step 1: Compute the null-vectors
+    phi, psi = null_vectors(lu)
 
-    # Assemble the particular solution
-    xp[:n-1] = LAS.spsolve_triangular(U[:n-1, :m-1], xp[:n-1], lower=False, overwrite_b=True)
-    xp[n-1]  = 0.0
+    # Step 2: Compute a particular solution of A
+    f  = rhs[:n]
+    z  = np.dot(psi, f) / np.dot(psi, c)
+    xp = particular(lu, f - z * c)
 
-    # Apply permutation matrix
-    xp = permutation(xp, perm_r)
-
-    # Step 5: Compute the solution using the bordering technique
+    # Step 3: Compute the solution using the bordering technique
     alpha = (rhs[-1] - d * z - np.dot(b, xp)) / np.dot(b, phi)
 
-    # Assemble solution
-    rhs[:n] = xp + alpha * phi
-    rhs[n]  = z
-
     # Return the solution (x z) and the left and right null-vectors of A
-    return rhs, phi, psi
+    return np.hstack((xp + alpha * phi, z)), phi, psi
+
+
+brd_solve_detail = brd_solve
 
 
 def solve_nonsing(lu, b, c, d):
@@ -391,82 +312,10 @@ def solve_sing(lu, b, c, d, A=None):
         |        | |   | = |   |
         \ b^T  d / \ h /   \ 1 /
 
-        when the matrix A is rank 1 deficient. In this case
-        h is expected to be zero if A is singular.
+        when the matrix A is rank 1 deficient. In this case h is zero, since c is not in R[A].
     """
-    n, m = lu.shape
-
-    # output vectors
-    v = np.empty(1 + n, dtype=float)
-
-    # make available
-    L = lu.L
-    U = lu.U
-    perm_c = lu.perm_c
-    perm_r = lu.perm_r
-
-    # Step 2: Compute right null-vector of A
-    phi       = np.empty(n, dtype=float)
-    phi[:n-1] = U.getcol(m-1).toarray().reshape(n)[:n-1]
-    phi[n-1]  = -1.0
-
-    # Back-substitute
-    phi[:m-1] = LAS.spsolve_triangular(U[:n-1, :m-1], phi[:n-1], lower=False, overwrite_b=True)
-
-    # Apply permutation
-    phi = phi[perm_c]
-
-    # Step 3: Compute left null-vector of A
-    psi       = np.empty(m, dtype=float)
-    psi[:m-1] = L.getrow(m-1).toarray().reshape(m)[:m-1]
-    psi[m-1]  = -1.0
-
-    # Back substitute
-    psi[:m-1] = LAS.spsolve_triangular(L.getH()[:n-1, :m-1], psi[:m-1], lower=False, overwrite_b=True)
-
-    # Apply permutation
-    psi = permutation(psi, perm_r)
-
-    # Step 4: Compute a particular solution of system 1
-    #
-    #           ψ^T f
-    #   1) z = -------
-    #           ψ^T c
-    #
-    #   2) Solve Ax = f - z c
-    #       -> Solution x = x_p + α φ
-    #
-    #   3) Find particular solution of A
-    #
-    #          h - d z - b^T x_p
-    #   4) α = -----------------
-    #               b^T φ
-    #
-    xp      = np.zeros(n, dtype=float)
-    psi_f   = np.dot(psi, xp)
-    psi_c   = np.dot(psi, c)
-    z       = psi_f / psi_c
-    xp[:]  -= c * z
-
-    # Back-substitute
-    xp[:]    = LAS.spsolve_triangular(L, xp[perm_r], lower=True, overwrite_b=True)
-
-    # Assemble the particular solution
-    xp[:n-1] = LAS.spsolve_triangular(U[:n-1, :m-1], xp[:n-1], lower=False, overwrite_b=True)
-    xp[n-1]  = 0.0
-
-    # Apply permutation matrix
-    xp = permutation(xp, perm_r)
-
-    # Step 5: Compute the solution using the bordering technique
-    alpha = (1.0 - d * z - np.dot(b, xp)) / np.dot(b, phi)
-
-    # Assemble solution
-    v[:n] = xp + alpha * phi
-    v[n]  = z
-
-    # Return the solution (x z) and the left and right null-vectors of A
-    return v
+    phi, psi = null_vectors(lu)
+    return np.hstack((phi / np.dot(b, phi), 0))
 
 
 class LUCP:
@@ -474,8 +323,9 @@ class LUCP:
         l, u, p, q = lucp(A)
         self.L = l
         self.U = u
-        self.perm_c = q
-        self.perm_r = p
+        # Use the same convention as SuperLU
+        self.perm_c = np.argsort(q)
+        self.perm_r = np.argsort(p)
 
     @property
     def shape(self):
@@ -483,26 +333,7 @@ class LUCP:
 
 
 def nullvector(A):
-    n, m = A.shape
-
-    # Step 1: Compute LU decomposition
-    lu = LUCP(A.toarray())
-
-    # make available
-    U = lu.U
-    perm_c = lu.perm_c
-
-    # Step 2: Compute right null-vector of A
-    phi       = np.empty(n, dtype=float)
-    phi[:n-1] = U.getcol(m-1).toarray().reshape(n)[:n-1]
-    phi[n-1]  = -1.0
-
-    # Back-substitute
-    phi[:m-1] = LAS.spsolve_triangular(U[:n-1, :m-1], phi[:n-1], lower=False, overwrite_b=True)
-
-    # Apply permutation
-    phi = phi[perm_c]
-
+    phi, psi = null_vectors(LUCP(A.toarray()))
     return phi
 
 
@@ -585,6 +416,14 @@ def solve_null_nonsing(lu, b, c, d):
     return v, w
 
 
+def solve_null_sing(lu, b, c, d):
+    """
+    Solves the same two systems as solve_null_nonsing when A is rank-1 deficient.
+    """
+    phi, psi = null_vectors(lu)
+    return np.hstack((phi / np.dot(b, phi), 0)), np.hstack((psi / np.dot(c, psi), 0))
+
+
 def brd_null(A, b, c, d, eps=1e-4, verify=True):
     """
         Solve the system:
@@ -604,7 +443,7 @@ def brd_null(A, b, c, d, eps=1e-4, verify=True):
     # Step 1: Compute LU decomposition
     lu = LAS.splu(A)
 
-    is_singular = lu.U[n-1, n-1] < eps
+    is_singular = abs(lu.U[n-1, n-1]) < eps
     return solve_null_sing(lu, b, c, d) if is_singular else solve_null_nonsing(lu, b, c, d)
 
 
-- 
2.43.0


From 556b30cf391d961fb4ea616e80377a8777db2df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 103/133] fix: pseudo-inverse solves of tall, scaled and
 several times deficient matrices

---
 funpy/linalg/qr_chol.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index 03aae1b..af8ec13 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -55,8 +55,8 @@ class QRCholesky:
                 self.jbar = LA.solve_triangular(self.R, self.S)
 
             # Create the matrix M
-            M = np.eye(max(self.m, self.n) - self.rank) + np.dot(self.jbar.T, self.jbar)
-            self.L = LA.cholesky(M)
+            M = np.eye(self.n - self.rank) + np.dot(self.jbar.T, self.jbar)
+            self.L = LA.cholesky(M) if M.size > 0 else M
         else:
             self.R = self.Rtot
 
@@ -145,7 +145,7 @@ class QRCholesky:
 
     def pseudo_rank(self, R):
         r = np.abs(R.diagonal())
-        s = (r[1:] / r[0]) <= r[0] * self.eps
+        s = r[1:] <= r[0] * self.eps
         if np.all(~s):
             return r.size
         return np.argmax(s) + 1
@@ -174,6 +174,10 @@ class QRCholesky:
         x = LAS.spsolve_triangular(self.R, c, lower=False)
         return x[self.C]
 
+    def solve_cholesky(self, b):
+        """ Solves L^T L x = b; empty when A has full column rank """
+        return LA.cho_solve((self.L, False), b) if b.size > 0 else b
+
     def solve_singular_dense(self, b):
         """ Want to solve Ax = b via the pseudo inverse -> x = A^+ b
 
@@ -193,8 +197,7 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        Qxk = self.solve_cholesky(Qyk)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
@@ -222,8 +225,7 @@ class QRCholesky:
         Qyk = np.dot(self.jbar.T, Pyk)
 
         # solve using Cholesky
-        tmp = LA.solve_triangular(self.L, Qyk)
-        Qxk = LA.solve_triangular(self.L, tmp, trans=1)
+        Qxk = self.solve_cholesky(Qyk)
 
         Pxk = Pyk - np.dot(self.jbar, Qxk)
         return -np.hstack((Pxk, Qxk))[self.C]
-- 
2.43.0


From 91cdfd247520531b252eb0732657f7a7735ceb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 104/133] fix: null vectors of bordered systems

---
 funpy/linalg/bem_solve.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/funpy/linalg/bem_solve.py b/funpy/linalg/bem_solve.py
index 5bde1e2..1388d14 100644
--- a/funpy/linalg/bem_solve.py
+++ b/funpy/linalg/bem_solve.py
@@ -101,8 +101,8 @@ class BEM:
 
         # Residual correction by BEC
         w  = -self.solver.solve(y1 * self.c)
-        y2 = (y1 * self.d + np.dot(self.b, w)) / self.eta
-        return np.hstack((w + self.beta * y2, y1 - y2))
+        y2 = (1.0 - y1 * self.d - np.dot(self.b, w)) / self.eta
+        return np.hstack((w - self.beta * y2, y1 + y2))
 
     def nullspace_adj(self):
         # BED approximation to y
@@ -110,8 +110,8 @@ class BEM:
 
         # Residual correction by BEC
         w  = -self.solver.solve_adj(y1 * self.b)
-        y2 = (y1 * self.d + np.dot(self.c, w)) / self.delta
-        return np.hstack((w + self.gamma * y2, y1 - y2))
+        y2 = (1.0 - y1 * self.d - np.dot(self.c, w)) / self.delta
+        return np.hstack((w - self.gamma * y2, y1 + y2))
 
     def solve_singular(self, b):
         """
@@ -193,12 +193,12 @@ class BEM:
     def solve_null_singular(self):
         # Get the null-vectors
         phi, psi = self.solver.null()
-        return np.hstack((phi, 0))
+        return np.hstack((phi / np.dot(self.b, phi), 0))
 
     def solve_null_singular_adj(self):
         # Get the null-vectors
         phi, psi = self.solver.null()
-        return np.hstack((psi, 0))
+        return np.hstack((psi / np.dot(self.c, psi), 0))
 
     def solve_null(self):
         return self.solve_null_singular() if self.is_singular else self.solve_null_nonsing()
-- 
2.43.0


From 84e927ae2610b70ac04284e6d9abaea903926b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 105/133] fix: updating a widely bordered system leaves the
 caller's borders intact

---
 funpy/linalg/bemw_solve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/linalg/bemw_solve.py b/funpy/linalg/bemw_solve.py
index 8fb7e77..db99732 100644
--- a/funpy/linalg/bemw_solve.py
+++ b/funpy/linalg/bemw_solve.py
@@ -32,9 +32,9 @@ class BEMW:
 
         # Main storage
         self.solver = solver
-        self.bs = bs
-        self.cs = cs
-        self.ds = ds
+        self.bs = list(bs)
+        self.cs = list(cs)
+        self.ds = list(ds)
 
         # Storage for data computed by this class
         self.storage = None
-- 
2.43.0


From dfc24d68be800e8135c9253d495d4d9e82f08fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 106/133] fix: sign of the parameter correction of the Schur
 solver

---
 funpy/linalg/schur_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/linalg/schur_solve.py b/funpy/linalg/schur_solve.py
index a6a5b95..4df310f 100644
--- a/funpy/linalg/schur_solve.py
+++ b/funpy/linalg/schur_solve.py
@@ -99,7 +99,7 @@ class LinearSolverNGSchur:
         delta = self.solve_core(rhs)
 
         # Finally compute correction to u component
-        delta_a = sprod(self.tangent.u, delta) / self.schur_comp
+        delta_a = - sprod(self.tangent.u, delta) / self.schur_comp
         delta_u = delta - delta_a * self.W
 
         return self.to_state(delta_u, delta_a)
-- 
2.43.0


From 990ff2b6dd617dce8469adfb8e9bca597da30981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 107/133] fix: fold solver combines its particular solutions
 with the right data

---
 funpy/linalg/fold_solve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/fold_solve.py b/funpy/linalg/fold_solve.py
index fb2c4c1..37de8ed 100644
--- a/funpy/linalg/fold_solve.py
+++ b/funpy/linalg/fold_solve.py
@@ -69,6 +69,7 @@ class FoldSolver:
         N = (n - 1) // 2
         f = x[:N]           # Projected onto range?
         g = x[N:2 * N]
+        h = x[n - 1]
 
         # This is not quite right yet!
         φ, ψ = self.solver.null()   # TODO: need these as functionals! Maybe not?
@@ -93,7 +94,7 @@ class FoldSolver:
         # Step 2: Solve the second row
         b = self.proj(r - α * Bφ)
         η = self.solver.particular(b)
-        β = (x[n - 1] - np.dot(φ, η)) / np.dot(φ, φ)
+        β = (h - np.dot(φ, η)) / np.dot(φ, φ)
         y = η + β * φ
 
         return np.hstack((x, y, z))
@@ -117,6 +118,7 @@ class FoldSolver:
         N = (n - 1) // 2
         f = x[:N]           # Projected onto range?
         g = x[N:2 * N]
+        h = x[n - 1]
 
         # This is not quite right yet!
         φ, ψ = self.solver.null()   # TODO: need these as functionals! Maybe not?
@@ -141,7 +143,7 @@ class FoldSolver:
         # Step 2: Solve the second row
         b = self.proj(r - α * Bψ)
         χ = self.solver.particular_adj(b)
-        β = (x[n - 1] - np.dot(self.c1, x) - np.dot(self.c2, η)) / np.dot(self.c2, ψ)
+        β = (h - np.dot(self.c1, χ) - np.dot(self.c2, y)) / np.dot(self.c1, ψ)
         x = χ + β * ψ
 
         return np.hstack((x, y, z))
-- 
2.43.0


From 0aadf7cacd28a04214022767838e28a18d9ffb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 108/133] fix: the error-controlled Krylov solver leaves its
 start vector intact

---
 funpy/linalg/gbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index 4b3cd92..c0e7abc 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -49,8 +49,9 @@ def gbit(A, P, b, y=None,
     q       = np.empty(n, dtype=dtype)
     zeta    = None
 
-    # copy initial guess
+    # copy initial guess -- the one passed in is left alone
     y0 = deepcopy(y)
+    y = deepcopy(y)
 
     # MAIN iteration loop!
     success = False
-- 
2.43.0


From ef620a66caa1ef3eab43eeddc2e25a312c38b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:20 +0000
Subject: [PATCH 109/133] fix: the Krylov solver stops on an exact solution and
 on divergence

---
 funpy/linalg/gbit.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index c0e7abc..047903e 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -115,14 +115,25 @@ def gbit(A, P, b, y=None,
             else:
                 stop_iter = epsilon <= rho * normyip1 * errtol
 
+            # The next correction vanishes and the update formulas would divide
+            # by sigma[i + 1]. On the first step this means that y is the
+            # solution, later on restart to confirm it with the true residual.
+            vanished = sigma[i+1] == 0.0
+            if vanished and i == 0:
+                stop_iter = True
+
             # Update iteration counters
             iter += 1
             i += 1
 
-            if not stop_iter and epsilon > epsilon_limit:
+            if not stop_iter and not epsilon <= epsilon_limit:
                 success = False
                 # Make sure outside loop quits!
                 stop_iter = False
+                restart = False
+                break
+
+            if vanished:
                 break
 
         # END INNER LOOP
-- 
2.43.0


From 26be34dd8160f294fbc1eb12ca7a92108ff779e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 110/133] fix: the Krylov solver restarts where its update
 breaks down

---
 funpy/linalg/gbit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/funpy/linalg/gbit.py b/funpy/linalg/gbit.py
index 047903e..705439a 100644
--- a/funpy/linalg/gbit.py
+++ b/funpy/linalg/gbit.py
@@ -90,7 +90,9 @@ def gbit(A, P, b, y=None,
             gamma = inner(delta[i], zeta)
             tau = sigma[i] / gamma if gamma != 0.0 else 2.0 * tau_max
 
-            if tau < tau_min:
+            # For gamma = 0 there is no update: its formulas below do not hold
+            # and the error estimates of the later steps would be wrong.
+            if tau < tau_min or (gamma == 0.0 and i > 0):
                 if i > 0:  # RESTART
                     break
                 else:
-- 
2.43.0


From 37e5372437061617068bac7c2048900401d11c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 111/133] fix: plain Newton reports a failed linear solve
 instead of raising a NameError

---
 funpy/newton/newton_standard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index e7f5ead..708a6fb 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 # Author: Andreas Buttenschoen
 from math import sqrt
+import warnings
 import numpy as np
 
 
-- 
2.43.0


From f23cf64b808d0e3ad04ad72011675d9ea1c39959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 112/133] fix: Newton drivers leave their start point intact

---
 funpy/newton/giant.py           | 2 +-
 funpy/newton/newton_standard.py | 2 +-
 funpy/newton/nleq_err.py        | 2 +-
 funpy/newton/qnerr.py           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index bac7cbc..aba2b9a 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -145,7 +145,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
         if normdx <= xtol:
             newton_success = True
             precision = normdx
-            x += dx
+            x = x + dx
             k += 1
             break
 
diff --git a/funpy/newton/newton_standard.py b/funpy/newton/newton_standard.py
index 708a6fb..add61ba 100644
--- a/funpy/newton/newton_standard.py
+++ b/funpy/newton/newton_standard.py
@@ -69,7 +69,7 @@ def newton_standard(NewtonSystem, x, linear_solver='lu',
         normdx = norm(dx)
 
         # NEXT STEP
-        x += dx
+        x = x + dx
         k += 1
 
         if debug:
diff --git a/funpy/newton/nleq_err.py b/funpy/newton/nleq_err.py
index 43ecc63..ee80259 100644
--- a/funpy/newton/nleq_err.py
+++ b/funpy/newton/nleq_err.py
@@ -102,7 +102,7 @@ def nleq_err(NewtonSystem, x, linear_solver='lu',
 
         # Solution found if condition here true
         if normdx <= tol:
-            x += dx
+            x = x + dx
             k += 1
             newton_success = True
             break
diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 2e7d4d4..4c6ed98 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -98,7 +98,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
 
     while not newton_success and k <= miter:
         if not skipstep:
-            x += dx[k]
+            x = x + dx[k]
 
             if sigma[k] <= tol * tol:
                 k += 1
-- 
2.43.0


From 553bb448e1a4a911c138e7e48c3c61f539bf3600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 113/133] fix: stand-alone quasi-Newton: norm of the first
 correction and early returns

---
 funpy/newton/qnerr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/funpy/newton/qnerr.py b/funpy/newton/qnerr.py
index 4c6ed98..2ab61b4 100644
--- a/funpy/newton/qnerr.py
+++ b/funpy/newton/qnerr.py
@@ -69,10 +69,10 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
                                    RuntimeWarning)
             newton_success = False
             if not nleqcalled: newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
 
         # descale - the newton step! Don't need to do this
-        sigma[0] = normdx
+        sigma[0] = normdx**2
         dx[0] = dxk
 
         # default value
@@ -82,7 +82,7 @@ def qnerr(NewtonSystem, x, tol=np.finfo(float).eps,
         if not success_callback:
             if verb: warnings.warn(f'QNERR: Failed callback indicates STOP after {k} iterations!')
             newton_success = False
-            return x, newton_success, k, normdx
+            return x, newton_success, k, normdx, neval, nsystem
     else:
         assert dx0 is not None, ''
         nsystem = NewtonSystem
-- 
2.43.0


From 90a93b4d8433f8a27606a20c9c320af78d7837b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 114/133] fix: GIANT returns the accepted iterate with its last
 correction

---
 funpy/newton/giant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/newton/giant.py b/funpy/newton/giant.py
index aba2b9a..7a73a11 100644
--- a/funpy/newton/giant.py
+++ b/funpy/newton/giant.py
@@ -198,7 +198,7 @@ def giant_gbit(NewtonSystem, x, tol=1e6 * np.finfo(float).eps,
             lam_new = min(1.0, 1.0 / (hk * (1.0 + rho)))
             if lam == 1.0 and lam_new == 1.0:
                 if normdxbar <= xtol:
-                    x += dxbar
+                    x = xkp1 + dxbar
                     precision = normdxbar
                     # RETURN SUCCESS
                     rcode = 0
-- 
2.43.0


From 0f483aa39a98bf1f73df4275241f934e2f5e5644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 115/133] fix: operator compilation no longer evaluates
 coefficients at random numbers

---
 funpy/colloc/source/DiffOperatorSource.py     | 5 +++--
 funpy/colloc/source/IntegralOperatorSource.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/source/DiffOperatorSource.py b/funpy/colloc/source/DiffOperatorSource.py
index 378ee95..3db6b4a 100644
--- a/funpy/colloc/source/DiffOperatorSource.py
+++ b/funpy/colloc/source/DiffOperatorSource.py
@@ -55,14 +55,15 @@ class DiffOperatorSource:
 
         # Depending on the type of expression we need to write the numpy code differently!
         real = self.coeffs.is_real if self.coeffs.is_real is not None else False
-        constant = self.coeffs.is_constant()
+        # (is_constant evaluates at random numbers, which may take forever)
+        constant = self.dummy not in self.coeffs.free_symbols
         contains_functions = len(self.coeffs.atoms(Function)) != 0
 
         if self.coeffs.is_zero:
             cg.write('return zeros(1, domain=[{0:.16f}, {1:.16f}], type=\'{2:s}\')'.\
                      format(domain[0], domain[1], ftype))
             self.posInfo = False
-        elif constant is not None and (constant or real) and not contains_functions:
+        elif (constant or real) and not contains_functions:
             cg.write('return ({0}) * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                      format(ccode, domain[0], domain[1], ftype))
         else:
diff --git a/funpy/colloc/source/IntegralOperatorSource.py b/funpy/colloc/source/IntegralOperatorSource.py
index 9c80230..e00aa5d 100644
--- a/funpy/colloc/source/IntegralOperatorSource.py
+++ b/funpy/colloc/source/IntegralOperatorSource.py
@@ -51,7 +51,7 @@ class IntegralOperatorSource:
         if not self.coeffs.is_zero:
             real = self.coeffs.is_real if self.coeffs.is_real is not None else False
 
-            if self.coeffs.is_constant() or real:
+            if self.dummy not in self.coeffs.free_symbols or real:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
@@ -80,7 +80,7 @@ class IntegralOperatorSource:
         if not self.integrand.is_zero:
             real = self.integrand.is_real if self.integrand.is_real is not None else False
 
-            if self.integrand.is_constant() or real:
+            if self.dummy not in self.integrand.free_symbols or real:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-- 
2.43.0


From fafc188a7bb90dce2ccf12148ffcc39209016a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 116/133] fix: functionals integrate exactly, can be applied
 and support Sobolev inner products

---
 funpy/fun.py        |  2 +-
 funpy/functional.py | 59 +++++++++++++++++++++++++++++++++------------
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index d639518..ff29308 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -319,7 +319,7 @@ def dot(input1, input2):
         raise ValueError("Domain mismatch %s != %s!" % (input1.domain, input2.domain))
 
     if isinstance(input1, Functional) and isinstance(input2, Fun):
-        return np.dot(input1.coeffs, input2.coeffs)
+        return input1(input2)
     elif isinstance(input1, np.ndarray):
         return np.dot(input1, input2.values)
     elif isinstance(input1, Fun) and isinstance(input2, Fun):
diff --git a/funpy/functional.py b/funpy/functional.py
index 2659ea5..2b2b6ca 100644
--- a/funpy/functional.py
+++ b/funpy/functional.py
@@ -5,36 +5,63 @@ import numpy as np
 from copy import deepcopy
 
 from .cheb import polyval
-from .cheb import quadwts
+from .cheb import quadwts, computeDerCoeffs
 
 HANDLED_FUNCTIONS = {}
 
 
 class Functional:
     """
-        Turns a function into a functional.
+        Turns a function f into the functional v -> (f, v), acting on the n
+        coefficients of each column of v.
+
+        order: order of the Sobolev inner product, (f, v) + (f', v') + ...
+        n: number of coefficients of v, the default is the number f has
     """
     def __init__(self, function, *args, **kwargs):
         weighted = kwargs.pop('weighted', False)
-        rescaleFactor = 0.5 * np.diff(function.domain)
+        order = kwargs.pop('order', 0)
+        rescaleFactor = 0.5 * np.diff(function.domain).item()
+        self.domain = function.domain
+
+        # the function belongs to the caller
+        n = kwargs.pop('n', None) or function.n
 
-        n = kwargs.pop('n', None)
-        if n is not None:
-            # work on a copy, the function belongs to the caller
-            function = deepcopy(function).prolong(n)
+        self.shape = (n, function.m)
 
         if weighted:
-            self.coeffs = np.array(function)
-            self.coeffs[0] *= np.pi
-            self.coeffs[1:] *= 0.5 * np.pi
+            # the Chebyshev polynomials are orthogonal
+            functional = 0.5 * np.pi * deepcopy(function).prolong(n).coeffs
+            functional[0] *= 2
+            self.coeffs = functional.reshape((1, -1), order='F') * rescaleFactor
+            return
+
+        functional = np.zeros((n, function.m))
+        basis = np.eye(n, order='F')
+
+        for k in range(order + 1):
+            if k > 0:
+                if n == k:  # constants left only
+                    break
+                function = np.diff(function)
+                basis = computeDerCoeffs(basis) / rescaleFactor
+
+            # enough points to integrate the products of the columns with
+            # every basis function exactly
+            N = n + function.n
+            w = quadwts(N)
+            fine = deepcopy(function).prolong(N)
+            for j, col in enumerate(fine):
+                moments = np.rot90(polyval(np.rot90(w * col.values.T)), -1).flatten()
+                functional[:, j] += np.dot(moments[:basis.shape[0]], basis)
 
-        else:
-            functional = np.empty(function.m, dtype=object)
-            w = quadwts(function.n)
-            for j, col in enumerate(function):
-                functional[j] = np.rot90(polyval(np.rot90(w * col.values.T)), -1)
+        self.coeffs = functional.reshape((1, -1), order='F') * rescaleFactor
 
-            self.coeffs = np.hstack(functional) * rescaleFactor
+    def __call__(self, u):
+        """ Implements (f, u), for a function or its coefficients """
+        if not isinstance(u, np.ndarray):
+            u = deepcopy(u).prolong(self.shape[0]).coeffs
+        return np.dot(self.coeffs, u.flatten(order='F')).item()
 
     def __array__(self):
         return self.coeffs
-- 
2.43.0


From f1bfdaef6d3d25bad15c44acdbf9946f03599a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 117/133] fix: the seeker understands the results and limits of
 its Newton drivers

---
 funpy/newton/newton_seeker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/funpy/newton/newton_seeker.py b/funpy/newton/newton_seeker.py
index 78c3fd0..75b1bce 100644
--- a/funpy/newton/newton_seeker.py
+++ b/funpy/newton/newton_seeker.py
@@ -50,11 +50,11 @@ class NewtonSeeker(NewtonBase):
         method = method.lower()
         if method == 'giant':
             un, success, iteration, self.neval, sys = giant_gbit(
-                LinOp, istate, miter=miter, inner=np.dot,
+                LinOp, istate, max_iter=miter, inner=np.dot,
                 *args, **kwargs)
 
         elif method == 'nleq' or method == 'nleq-err':
-            un, success, iteration, self.neval, sys = nleq_err(
+            un, success, iteration, self.normdx, self.neval, sys = nleq_err(
                 LinOp, istate, miter=miter, inner=np.dot,
                 *args, **kwargs)
 
-- 
2.43.0


From d028418dfce265b7559f345b3a48967200caa8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 118/133] fix: deflated preconditioner inverts the deflated
 operator, functional has the size of the discretisation

---
 funpy/newton/FrechetDeflatedPrecond.py |  5 +++--
 funpy/newton/NewtonSystem.py           |  3 ++-
 funpy/newton/deflation.py              | 13 ++++++-------
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/funpy/newton/FrechetDeflatedPrecond.py b/funpy/newton/FrechetDeflatedPrecond.py
index f396baf..9a2cc77 100644
--- a/funpy/newton/FrechetDeflatedPrecond.py
+++ b/funpy/newton/FrechetDeflatedPrecond.py
@@ -26,7 +26,8 @@ class FrechetDeflatedPrecond(LinearOperator):
 
     def __compute_denom(self):
         # compute the values for the inner-product
-        return self.eta**2 + self.functional(self.b)
+        self.Pinv_b = self.Pf.solve(self.b)
+        return self.eta + self.functional(self.Pinv_b)
 
     def _matvec(self, x):
         """
@@ -40,7 +41,7 @@ class FrechetDeflatedPrecond(LinearOperator):
             return self.Pf.solve(x)
 
         term1 = self.Pf.solve(x)
-        term2 = self.b * (self.functional(term1) / self.denom)
+        term2 = self.Pinv_b * (self.functional(term1) / self.denom)
         return (term1 - term2) / self.eta
 
     def _rmatvec(self, x):
diff --git a/funpy/newton/NewtonSystem.py b/funpy/newton/NewtonSystem.py
index 116f77a..fdd97e1 100644
--- a/funpy/newton/NewtonSystem.py
+++ b/funpy/newton/NewtonSystem.py
@@ -81,7 +81,8 @@ class NewtonSystem:
 
         if self.known_solutions:
             self.res = self.colloc.project_vector(self.source.rhs.values.flatten(order='F'), cts=True)
-            self.eta, self.deta = deflation_linearization(self.u.u, known_solutions=self.known_solutions)
+            self.eta, self.deta = deflation_linearization(
+                self.u.u, known_solutions=self.known_solutions, n=self.shape[0])
 
         # Create the matrix and its precond
         proj   = self.colloc.proj
diff --git a/funpy/newton/deflation.py b/funpy/newton/deflation.py
index f666fe3..227e00f 100644
--- a/funpy/newton/deflation.py
+++ b/funpy/newton/deflation.py
@@ -10,13 +10,15 @@ def deflation(u, known_solutions=[], shift=1.0, power=2.0):
     return 1.0 if not known_solutions else np.product([shift + 1.0 / h1norm(u - ks)**power for ks in known_solutions])
 
 
-def deflation_linearization(u, known_solutions=[], shift=1.0, power=2.0, basis='coeff'):
+def deflation_linearization(u, known_solutions=[], shift=1.0, power=2.0, basis='coeff', n=None):
     """ Computes the derivative of the deflation operator eta(u)
 
             eta'(u) = 2 eta(u) Sum [ u - u_k / [ shift ( | u - u_k |^2 + 1 ) | u - u_k |^2 ] ]
                                 k
 
             This needs to be implemented as a LinearOperator
+
+            n: number of coefficients per function of the argument of the derivative
     """
     eta = 1.
     if not known_solutions:
@@ -38,9 +40,6 @@ def deflation_linearization(u, known_solutions=[], shift=1.0, power=2.0, basis='
     # multiply by the common factor!
     function *= -power * eta
 
-    # Make sure that function has the correct shape
-    if abs(function.shape[0] - u.shape[0]) > 0:
-        function.prolong(u.shape[0])
-
-    # create Functional representing the derivative of eta
-    return eta, Functional(function, order=1, basis=basis)
+    # create Functional representing the derivative of eta, acting on functions
+    # of the shape of u (the known solutions may have more coefficients).
+    return eta, Functional(function, order=1, basis=basis, n=n or u.shape[0])
-- 
2.43.0


From b6a0180c8a66779db966945da0c744f7612fcc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 119/133] fix: direct Newton steps keep all the coefficients
 they solved for

---
 funpy/newton/NewtonSystem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/newton/NewtonSystem.py b/funpy/newton/NewtonSystem.py
index fdd97e1..e222eaf 100644
--- a/funpy/newton/NewtonSystem.py
+++ b/funpy/newton/NewtonSystem.py
@@ -56,8 +56,7 @@ class NewtonSystem:
         linOp, precd, proj = self.matrix(precond=precond)
 
         # Create the exact linear solver
-        self.linSys = ExactLinearSolver(linOp, proj=lambda x: proj.dot(x),
-                                        method=linear_solver)
+        self.linSys = ExactLinearSolver(linOp, method=linear_solver)
 
     def solve(self, b):
         assert self.linSys is not None, 'Solving via sparse method don\'t call this!'
-- 
2.43.0


From f81c9657a419c7803823339c57e50e8908795acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 120/133] fix: solving leaves the caller's initial state intact

---
 funpy/colloc/chebOp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 77f14c5..acc4e64 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -333,7 +333,7 @@ class ChebOp:
 
         # Create initial state
         if f is None: f = zeros(len(self.eqn), domain=self.domain)
-        i_state = f if isinstance(f, BaseState) else DeflationState(u=f, **self.parameter_names)
+        i_state = deepcopy(f) if isinstance(f, BaseState) else DeflationState(u=f, **self.parameter_names)
         if self.linSys is not None: self.linSys.setParameters(i_state)
 
         # Call the solver -> start the timer
-- 
2.43.0


From 211d47863d05eb8e89566c862848a0fd5675a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 121/133] fix: solves at fixed resolution use the requested
 accuracy

---
 funpy/colloc/chebOp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index acc4e64..625a724 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -347,6 +347,7 @@ class ChebOp:
         else:
             i_state = i_state.prolong(self.n_disc)
             precond = False if self.ftype == 'trig' else True
+            kwargs.setdefault('tol', eps)
             s_state, success, iterations = newton.solve(
                 i_state, precond=precond, debug=debug, *args, **kwargs)
 
-- 
2.43.0


From 95dd63812b2317bc381f10ec1eae7e833d29a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 122/133] fix: adaptive solves converge on resolved equations
 only, residuals are not truncated

---
 funpy/colloc/LinSys.py |  2 ++
 funpy/colloc/adapt.py  | 14 +++++++++++---
 funpy/colloc/chebOp.py | 17 +++++++++++++++++
 funpy/colloc/rhs.py    | 12 ++++++++++++
 4 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/LinSys.py b/funpy/colloc/LinSys.py
index fd67b3f..607a839 100644
--- a/funpy/colloc/LinSys.py
+++ b/funpy/colloc/LinSys.py
@@ -161,6 +161,8 @@ class LinSys(LinSysBase):
         if self.c_rhs is not None:
             self.c_rhs.update(u)
             self.rhs.values += self.c_rhs.values
+            self.rhs.length = max(self.rhs.length, self.c_rhs.length)
+            self.rhs.dropped = max(self.rhs.dropped, self.c_rhs.dropped)
 
         # update constraint residuals
         try:
diff --git a/funpy/colloc/adapt.py b/funpy/colloc/adapt.py
index 592206f..e708f85 100644
--- a/funpy/colloc/adapt.py
+++ b/funpy/colloc/adapt.py
@@ -45,10 +45,14 @@ class SolverAdaptive:
             Arguments:
                 state -> Must be of BaseState type.
         """
-        lower_bd = state.shape[0]
+        lower_bd = max(17, state.shape[0])
         upper_bd = 2**int(np.log2(findNextPowerOf2(lower_bd)) + max(up_steps - 1, 0))
         n_its = self.n_disc(lower_bd=lower_bd, upper_bd=upper_bd, *args, **kwargs)
         success = np.zeros_like(n_its).astype(bool)
+        converged = len(n_its) == 1
+
+        # the initial guess belongs to the caller
+        state = deepcopy(state)
 
         for k, n in enumerate(n_its):
             if state is not None: state.prolong(n)
@@ -68,7 +72,11 @@ class SolverAdaptive:
 
             # We only update the state variables if Newton's method was successful!
             if success[k]:
-                if d_norm < eps and k > 0:
+                # Two levels also agree if neither of them sees the fine features of the
+                # equation, thus check that the residual was represented.
+                if d_norm < eps and k > 0 and \
+                        self.nw.system.truncated_residual(state) <= max(eps, 1e-6) * max(1, state.norm()):
+                    converged = True
                     break
 
                 state = deepcopy(nst)
@@ -79,4 +87,4 @@ class SolverAdaptive:
                 break
 
         # The n required for the solution
-        return state, success[k], it
+        return state, bool(success[k] and converged), it
diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 625a724..f702c2c 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -400,14 +400,31 @@ class ChebOp:
 
     def residual(self, u, p=2):
         self.linSys.update_partial(u)
+
+        # the residual can have more coefficients than the discretization
+        n_disc, length = self.linSys.n_disc, self.linSys.rhs.length
+        if length > n_disc:
+            self.linSys.setDisc(length)
+            self.linSys.update_partial(u)
+
         res = Fun(coeffs=self.linSys.rhs.values, domain=u.domain, type=self.ftype)
         residual = res.norm(p=p)
 
+        if length > n_disc:
+            self.linSys.setDisc(n_disc)
+            self.linSys.update_partial(u)
+
         if self.linSys.numConstraints > 0:
             residual += np.linalg.norm(self.linSys.cts_res, ord=p)
 
         return residual
 
+    def truncated_residual(self, u):
+        """ The size of the coefficients of the residual which are not represented
+        by the current discretization """
+        self.linSys.update_partial(u)
+        return self.linSys.rhs.dropped
+
     def matrix(self, *args, **kwargs):
         colloc = self.discretize(*args, **kwargs)
         return colloc.matrix()
diff --git a/funpy/colloc/rhs.py b/funpy/colloc/rhs.py
index 0a7129d..f6b9189 100644
--- a/funpy/colloc/rhs.py
+++ b/funpy/colloc/rhs.py
@@ -21,6 +21,11 @@ class Residual:
         # store the current rhs
         self.values = kwargs.pop('values', None)
 
+        # number of coefficients of the residual, and the size of those that do
+        # not fit into the discretization.
+        self.length = 0
+        self.dropped = 0.0
+
     @property
     def pars(self):
         """ Prints the current parameters in the namespace! """
@@ -49,6 +54,8 @@ class Residual:
     def update(self, u, *args, **kwargs):
         n, m = (self.n_disc, u.shape[1])
         self.values = np.zeros((n, m), order='F', dtype=np.complex128 if u.istrig else np.float64)
+        self.length = n
+        self.dropped = 0.0
 
         # Compute the right hand side values
         for i, rhs in enumerate(self.rhs):
@@ -57,6 +64,11 @@ class Residual:
             # make sure that the function is long enough
             self.values[:, i] = crhs.prolong_coeffs(n)[:, 0]
 
+            # keep track of what the discretization doesn't represent
+            if crhs.shape[0] > n:
+                self.length = max(self.length, crhs.shape[0])
+                self.dropped = max(self.dropped, np.sum(np.abs(crhs.coeffs)) - np.sum(np.abs(self.values[:, i])))
+
     def __pos__(self):
         return self
 
-- 
2.43.0


From eec987a97dbd6d09772a050a16381d0148793ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 123/133] fix: trigonometric operators start from a
 trigonometric zero function

---
 funpy/colloc/chebOp.py | 7 ++++++-
 funpy/colloc/eig.py    | 4 +---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index f702c2c..5d2d7c5 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -171,6 +171,11 @@ class ChebOp:
     def neqn(self):
         return len(self.eqn)
 
+    def zero(self):
+        """ The zero function in the space of the discretization """
+        ftype = 'trig' if self.colloc_type is trigspec else 'cheb'
+        return zeros(self.neqn, domain=self.domain, type=ftype)
+
     @property
     def pars(self):
         if self.linSys is not None: return self.linSys.ns['print_pars']()
@@ -332,7 +337,7 @@ class ChebOp:
         print('n_disc = ', self.n_disc)
 
         # Create initial state
-        if f is None: f = zeros(len(self.eqn), domain=self.domain)
+        if f is None: f = self.zero()
         i_state = deepcopy(f) if isinstance(f, BaseState) else DeflationState(u=f, **self.parameter_names)
         if self.linSys is not None: self.linSys.setParameters(i_state)
 
diff --git a/funpy/colloc/eig.py b/funpy/colloc/eig.py
index 0d9b280..ece10d6 100644
--- a/funpy/colloc/eig.py
+++ b/funpy/colloc/eig.py
@@ -5,8 +5,6 @@ import numpy as np
 import scipy.linalg as LA
 from pylops import LinearOperator
 
-from ..fun import zeros
-
 
 class GeneralizedEigenvalueOp(LinearOperator):
     r"""
@@ -52,7 +50,7 @@ def eigs(op, f=None, ignore_exception=True, sort='lhp', *args, **kwargs):
         op.setDisc(f.shape[0])
     else:
         # If f is None we will assume that the operator is linear!
-        f = zeros(op.neqn, domain=op.domain)
+        f = op.zero()
 
     # Use a QZ decomposition to compute the generalized eigenvalues
     # Get the required matrices!
-- 
2.43.0


From 46b5be02b3ac00039ce984db949c08458c40d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 124/133] fix: sparse QR keeps badly scaled columns of regular
 systems and solves full rank wide and tall systems

---
 funpy/linalg/qr_chol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/funpy/linalg/qr_chol.py b/funpy/linalg/qr_chol.py
index af8ec13..60e7a89 100644
--- a/funpy/linalg/qr_chol.py
+++ b/funpy/linalg/qr_chol.py
@@ -21,7 +21,9 @@ class QRCholesky:
         sparse = sps.issparse(A)
         if sparse:
             import sparseqr
-            Q, R, C, rank = sparseqr.qr(A)
+            # the caller knows that the matrix is regular -> do not drop badly scaled columns
+            regular = kwargs.get('rank') == self.m == self.n
+            Q, R, C, rank = sparseqr.qr(A, tolerance=-1.0 if regular else None)
             self.Rtot = R.tocsr()
         else:
             Q, self.Rtot, C, self.k = qr(A, pivoting=True, mode='full')
@@ -50,7 +52,9 @@ class QRCholesky:
             self.R = self.Rtot[:self.rank, :self.rank]
             self.S = self.Rtot[:self.rank, self.rank:]
             if sparse:
-                self.jbar = np.asarray(LAS.spsolve_triangular(self.R, self.S.todense(), lower=False))
+                self.jbar = self.S.toarray()
+                if self.jbar.size > 0:
+                    self.jbar = LAS.spsolve_triangular(self.R, self.jbar, lower=False)
             else:
                 self.jbar = LA.solve_triangular(self.R, self.S)
 
-- 
2.43.0


From 2e8474545613e1d6c33cb75ad974dc24dc28a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:26 +0000
Subject: [PATCH 125/133] fix: a diverged solve is reported as a failure

---
 funpy/colloc/chebOp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index 5d2d7c5..b2bcb75 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -366,7 +366,7 @@ class ChebOp:
             soln = s_state
 
         # If solver failed return None
-        if soln is None:
+        if soln is None or not np.all(np.isfinite(soln.coeffs)):
             return None, False, np.inf
 
         # Compute the residual
@@ -412,8 +412,10 @@ class ChebOp:
             self.linSys.setDisc(length)
             self.linSys.update_partial(u)
 
-        res = Fun(coeffs=self.linSys.rhs.values, domain=u.domain, type=self.ftype)
-        residual = res.norm(p=p)
+        values = self.linSys.rhs.values
+        residual = np.inf
+        if np.all(np.isfinite(values)):
+            residual = Fun(coeffs=values, domain=u.domain, type=self.ftype).norm(p=p)
 
         if length > n_disc:
             self.linSys.setDisc(n_disc)
-- 
2.43.0


From ffcdc048f5d789cf689d6bf80acc75894e7586bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:13 +0000
Subject: [PATCH 126/133] fix: the linearised action, second and mixed
 derivatives include the constraints

---
 funpy/colloc/source/compiler.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/funpy/colloc/source/compiler.py b/funpy/colloc/source/compiler.py
index 97f3405..3f20d1e 100644
--- a/funpy/colloc/source/compiler.py
+++ b/funpy/colloc/source/compiler.py
@@ -161,17 +161,21 @@ class Source:
         pycode = self.__emit_common()
         self.common = pycode
 
-        # compile right hand side
+        # The order is the highest one found in the equations and the constraints
         for type in ['eqn', 'cts']:
             src = getattr(self, type + '_src')
             if src is None: continue
-            name = self.symbol_names[type]
             spcode = self.sympify(src, self.ns, debug=debug)
             self.syp_src[type] = spcode
 
             # Compute the diff Order
             self.diffOrder = max(self.diffOrder, max(self.get_diff_order(spcode)))
 
+        # compile right hand side
+        for type in ['eqn', 'cts']:
+            if type not in self.syp_src: continue
+            name = self.symbol_names[type]
+            spcode = self.syp_src[type]
             # Create a function source object representing the residual!
             func = NonlinearVectorFunctionSource(spcode, self.ftype,
                                                  self.domain, name=name,
@@ -242,11 +246,18 @@ class Source:
                 3) G_xp[v, w] & G_xq[v, w]
 
         """
+        # The residual is the sum of the equations and the constraints
+        lin = {'eqn': self.syp_src['deqn'], 'cts': self.syp_src.get('dcts')}
+        if self.n_cts > 0:
+            lin['eqn'] = self.linearize(self.syp_src['eqn'] + self.syp_src['cts'],
+                                        self.diffOrder, name='fold', debug=debug)
+        self.syp_src['dfull'] = lin['eqn']
+
         for type in ['eqn', 'cts']:
             if len(getattr(self, type + '_src')) == 0: continue
 
             # Get the action of the linearization
-            daction = self.syp_src['d' + type].action
+            daction = lin[type].action
 
             # Action of the linearization! TODO: No longer needed right now!
             # Create a function source object representing the residual!
@@ -260,7 +271,7 @@ class Source:
 
             # Compute the action of the second derivative!
             name = 'dd' + self.symbol_names[type]
-            self.syp_src['dd' + type] = self.bilinear(self.syp_src['d'+type],
+            self.syp_src['dd' + type] = self.bilinear(lin[type],
                                                       self.diffOrder,
                                                       name=name, debug=debug)
 
@@ -281,7 +292,7 @@ class Source:
 
             # Compute adjoint of the second derivative!
             name = 'dd_adj' + self.symbol_names[type]
-            self.syp_src['dd_adj' + type] = self.bilinear(self.syp_src['d'+type],
+            self.syp_src['dd_adj' + type] = self.bilinear(lin[type],
                                                           self.diffOrder, adjoint=True,
                                                           name=name, debug=debug)
 
@@ -301,7 +312,7 @@ class Source:
             setattr(self, 'dd_adj' + type, func)
 
         # Compute a bunch of coefficients
-        self.bilinear_dp(self.diffOrder, cpars, name='dxdp', debug=debug)
+        self.bilinear_dp(self.diffOrder, cpars, name='dxdp', debug=debug, src_name='dfull')
 
     def bilinear_dp(self, diffOrder, cpars, name='ddp', debug=False, simplify=False, src_name='deqn'):
         """ Computes the linearization of the operator stored in matrix """
-- 
2.43.0


From a153b069e037733afad560361d977baff0655ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:04 +0000
Subject: [PATCH 127/133] fix: coefficients of integral terms are functions on
 the domain of the equation

---
 funpy/colloc/source/DiffOperatorSource.py     | 3 ++-
 funpy/colloc/source/IntegralOperatorSource.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/funpy/colloc/source/DiffOperatorSource.py b/funpy/colloc/source/DiffOperatorSource.py
index 3db6b4a..78aafe6 100644
--- a/funpy/colloc/source/DiffOperatorSource.py
+++ b/funpy/colloc/source/DiffOperatorSource.py
@@ -67,6 +67,7 @@ class DiffOperatorSource:
             cg.write('return ({0}) * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                      format(ccode, domain[0], domain[1], ftype))
         else:
-            cg.write('return asfun({0}, type=\'{1:s}\')'.format(ccode, ftype))
+            cg.write('return asfun({0}, type=\'{3:s}\', domain=[{1:.16f}, {2:.16f}])'.\
+                     format(ccode, domain[0], domain[1], ftype))
 
         cg.dedent()
diff --git a/funpy/colloc/source/IntegralOperatorSource.py b/funpy/colloc/source/IntegralOperatorSource.py
index e00aa5d..6770224 100644
--- a/funpy/colloc/source/IntegralOperatorSource.py
+++ b/funpy/colloc/source/IntegralOperatorSource.py
@@ -55,7 +55,8 @@ class IntegralOperatorSource:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-                cg.write('return {0}'.format(ccode))
+                cg.write('return asfun({0}, type=\'{3:s}\', domain=[{1:.16f}, {2:.16f}])'.\
+                         format(ccode, domain[0], domain[1], ftype))
 
         else:  # nothing -> write zero
             self.posInfo = False
@@ -84,7 +85,8 @@ class IntegralOperatorSource:
                 cg.write('return {0} * ones(1, domain=[{1:.16f}, {2:.16f}], type=\'{3:s}\')'.\
                          format(ccode, domain[0], domain[1], ftype))
             else:
-                cg.write('return {0}'.format(ccode))
+                cg.write('return asfun({0}, type=\'{3:s}\', domain=[{1:.16f}, {2:.16f}])'.\
+                         format(ccode, domain[0], domain[1], ftype))
 
         else:  # nothing -> write zero
             self.posInfo = False
-- 
2.43.0


From 7e3e8ca0592bb8e1c5ed9e000e33c1ed13698edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:30 +0000
Subject: [PATCH 128/133] fix: copies of an operator keep all of its settings

---
 funpy/colloc/chebOp.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/funpy/colloc/chebOp.py b/funpy/colloc/chebOp.py
index b2bcb75..e4d75f7 100644
--- a/funpy/colloc/chebOp.py
+++ b/funpy/colloc/chebOp.py
@@ -231,19 +231,23 @@ class ChebOp:
         if _copy is None:
             _copy = type(self)(
                 debug=self.debug,
+                run_debug=self.run_debug,
+                solver_debug=self.solver_debug,
                 functions=deepcopy(self.function_names),
                 constant_functions=deepcopy(self.constant_function_names),
-                operator=deepcopy(self.operator_names),
+                operators=deepcopy(self.operator_names),
                 kernels=deepcopy(self.kernels),
                 parameters=deepcopy(self.parameter_names),
                 colloc=self.colloc,
-                domain=self.domain,
-                n_disc=self.n_disc,
+                domain=deepcopy(self.domain),
+                n=self.n_disc,
+                n_min=self.n_min,
                 eqn=deepcopy(self.eqn),
                 constraints=deepcopy(self.cts),
                 bc=deepcopy(self.bcs),
                 ftype=self.ftype,
-                cpar=self.cpar,
+                cpar=deepcopy(self.cpar),
+                eps=self.eps,
                 tol=self.lin_tol,
                 diff_order=self.diffOrder,
                 linear=self.linear
-- 
2.43.0


From 7c05fba35e6b8d9dface9da736a4ece48df31bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:39 +0000
Subject: [PATCH 129/133] fix: in-place powers, and results of any numpy
 function written to another function

---
 funpy/fun.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/funpy/fun.py b/funpy/fun.py
index ff29308..f061ef5 100644
--- a/funpy/fun.py
+++ b/funpy/fun.py
@@ -172,11 +172,12 @@ class Fun(np.lib.mixins.NDArrayOperatorsMixin):
         if method == "__call__":
             out = kwargs.pop('out', None)
             ipts = [x.onefun if isinstance(x, type(self)) else x for x in inputs]
+            new_fun = numpy_ufunc(*ipts, **kwargs)
             if out is not None:
-                numpy_ufunc(*ipts, out=out[0].onefun, **kwargs)
+                # not all functions know how to write to their output
+                out[0].onefun = new_fun
                 return out[0]
             else:
-                new_fun = numpy_ufunc(*ipts, **kwargs)
                 return Fun(domain=self.domain, mapping=self.mapping, onefun=new_fun)
         else:
             return NotImplemented
-- 
2.43.0


From cf85e25153afae15dabb0cd105a61d7201575594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:45 +0000
Subject: [PATCH 130/133] fix: functions of a function and a number

---
 funpy/cheb/chebtech.py | 3 ++-
 funpy/trig/trigtech.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/funpy/cheb/chebtech.py b/funpy/cheb/chebtech.py
index 4d89f1d..a61924e 100644
--- a/funpy/cheb/chebtech.py
+++ b/funpy/cheb/chebtech.py
@@ -134,7 +134,8 @@ class chebtech(np.lib.mixins.NDArrayOperatorsMixin):
                 return chebtech(op=lambda x: numpy_ufunc(inputs[0](x)),
                                eps=self.eps, maxLength=self.maxLength)
             elif len(inputs) == 2:
-                return chebtech(op=lambda x: numpy_ufunc(inputs[0](x), inputs[1](x)),
+                # either of the two may be a number
+                return chebtech(op=lambda x: numpy_ufunc(*[f(x) if callable(f) else f for f in inputs]),
                                eps=self.eps, maxLength=self.maxLength)
             else:
                 return NotImplemented
diff --git a/funpy/trig/trigtech.py b/funpy/trig/trigtech.py
index e5a28b9..5dd003c 100644
--- a/funpy/trig/trigtech.py
+++ b/funpy/trig/trigtech.py
@@ -177,7 +177,8 @@ class trigtech(np.lib.mixins.NDArrayOperatorsMixin):
                 op = lambda x: numpy_ufunc(inputs[0](x))
                 return trigtech(op=op)
             elif len(inputs) == 2:
-                op = lambda x: numpy_ufunc(inputs[0](x), inputs[1](x))
+                # either of the two may be a number
+                op = lambda x: numpy_ufunc(*[f(x) if callable(f) else f for f in inputs])
                 return trigtech(op=op)
             else:
                 return NotImplemented
-- 
2.43.0


From d14d2669250dc4b65a353064e6c340e0319bd3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:51 +0000
Subject: [PATCH 131/133] fix: absolute values of periodic functions by fabs

---
 funpy/trig/ufuncs.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 0ff49fc..334c508 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -24,9 +24,7 @@ def positive(x, **kwargs):
     return np.copy(x)
 
 def fabs(x, **kwargs):
-    abs_values = np.abs(x.get_values())
-    return trigtech(coeffs=vals2coeffs(abs_values), values=abs_values,
-                    simplify=False, ishappy=x.ishappy, isreal=x.isReal)
+    return trigtech(op=lambda y: np.fabs(x(y)), minSamples=2 * x.n)
 
 def power(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
-- 
2.43.0


From d73dd557b633d5aa262315cc5ad764dbacccb546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:51 +0000
Subject: [PATCH 132/133] fix: a number to the power of a function

---
 funpy/cheb/ufuncs.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index 7776d69..ca52073 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -35,8 +35,7 @@ def absolute(x, **kwargs):
 def power(x1, x2, **kwargs):
     # if we have one element that is a ndarray or Number we want that to be x2!
     if isinstance(x1, Number):
-        return NotImplemented
-
+        return chebtech(op=lambda x: np.float_power(x1, x2(x)), minSamples=2 * x2.n, eps=x2.eps)
     if isinstance(x2, Number):
         # Do nothing just return the function
         if x2 == 1.0:
-- 
2.43.0


From 1a0521010fe6c1e6c8acea7fcf5f3176246a6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:00 +0000
Subject: [PATCH 133/133] fix: sums and products of periodic and non-periodic
 functions

---
 funpy/cheb/ufuncs.pyx | 40 ++++++++++++++++++++++++----------------
 funpy/trig/ufuncs.py  | 10 ++--------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/funpy/cheb/ufuncs.pyx b/funpy/cheb/ufuncs.pyx
index ca52073..3712f74 100644
--- a/funpy/cheb/ufuncs.pyx
+++ b/funpy/cheb/ufuncs.pyx
@@ -17,6 +17,26 @@ from ..trig.trigtech import trigtech
 from . cimport detail
 
 
+def mixed(ufunc, x1, x2):
+    """ Combine a chebtech with a trigtech: the result is periodic unless it cannot be represented as such """
+    n = x1.n + x2.n
+    eps = max(x1.eps, x2.eps)
+
+    def op(x):
+        return ufunc(*[np.reshape(f.feval(x), (np.size(x), f.m)) for f in (x1, x2)])
+
+    result = trigtech(op=op, minSamples=n, eps=eps)
+    x = np.cos(np.linspace(0, np.pi, n + 2))
+    values = op(x)
+    error = np.abs(np.reshape(result.feval(x), values.shape) - values)
+    if result.ishappy and np.max(error) <= np.sqrt(eps) * np.max(np.abs(values)):
+        return result
+
+    # chebtechs are real
+    if np.iscomplexobj(values):
+        return NotImplemented
+    return chebtech(op=op, minSamples=n, eps=eps)
+
 def negative(x, **kwargs):
     # Create the new function
     if not isinstance(x, chebtech):
@@ -69,16 +89,10 @@ def add(x1, x2, **kwargs):
 
     # If one of the arguments is a trigtech -> build a chebtech and then call multiply
     elif isinstance(x1, trigtech):
-        eps = max(x1.eps, x2.eps)
-        x1_cheb = chebtech(op=lambda x: x1.feval(x), eps=eps)
-        result = add(x1_cheb, x2, **kwargs)
-        return trigtech(op=lambda x: result.feval(x), eps=eps)
+        return mixed(np.add, x1, x2)
 
     elif isinstance(x2, trigtech):
-        eps = max(x1.eps, x2.eps)
-        x2_cheb = chebtech(op=lambda x: x2.feval(x), eps=eps)
-        result = add(x1, x2_cheb, **kwargs)
-        return trigtech(op=lambda x: result.feval(x), eps=eps)
+        return mixed(np.add, x1, x2)
 
     elif isinstance(x2, type(x1)):  # other is expected to be a chebfun object now
         nf = x1.n
@@ -210,16 +224,10 @@ def multiply(x1, x2, **kwargs):
 
     # If one of the arguments is a trigtech -> build a chebtech and then call multiply
     elif isinstance(x1, trigtech):
-        eps = max(x1.eps, x2.eps)
-        x1_cheb = chebtech(op=lambda x: x1.feval(x), eps=eps)
-        result = multiply(x1_cheb, x2, **kwargs)
-        return trigtech(op=lambda x: result.feval(x), eps=eps)
+        return mixed(np.multiply, x1, x2)
 
     elif isinstance(x2, trigtech):
-        eps = max(x1.eps, x2.eps)
-        x2_cheb = chebtech(op=lambda x: x2.feval(x), eps=eps)
-        result = multiply(x1, x2_cheb, **kwargs)
-        return trigtech(op=lambda x: result.feval(x), eps=eps)
+        return mixed(np.multiply, x1, x2)
 
     # We interpret multiplication with another numpy array of size equal to
     # the size of the chebpy object as element-wise multiplication in
diff --git a/funpy/trig/ufuncs.py b/funpy/trig/ufuncs.py
index 334c508..427e659 100644
--- a/funpy/trig/ufuncs.py
+++ b/funpy/trig/ufuncs.py
@@ -80,10 +80,7 @@ def add(x1, x2, **kwargs):
 
     # If one of the arguments is a chebtech -> map everything to a chebtech and then map back!
     elif isinstance(x1, chebtech) or isinstance(x2, chebtech):
-        x1_cheb = chebtech(op=lambda x: x1.feval(x))
-        x2_cheb = chebtech(op=lambda x: x2.feval(x))
-        result = cb_funcs.add(x1_cheb, x2_cheb)
-        return trigtech(op=lambda x: result.feval(x))
+        return cb_funcs.mixed(np.add, x1, x2)
 
     elif isinstance(x2, type(x1)):  # other is expected to be a chebfun object now
         nf = x1.n
@@ -173,10 +170,7 @@ def multiply(x1, x2, **kwargs):
 
     # If one of the arguments is a chebtech -> map everything to a chebtech and then map back!
     elif isinstance(x1, chebtech) or isinstance(x2, chebtech):
-        x1_cheb = chebtech(op=lambda x: x1.feval(x))
-        x2_cheb = chebtech(op=lambda x: x2.feval(x))
-        result = cb_funcs.multiply(x1_cheb, x2_cheb)
-        return trigtech(op=lambda x: result.feval(x))
+        return cb_funcs.mixed(np.multiply, x1, x2)
 
     # We interpret multiplication with another numpy array of size equal to
     # the size of the chebpy object as element-wise multiplication in
-- 
2.43.0

