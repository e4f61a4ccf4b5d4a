From 7a1449ed6961eec286bab5f4410c1e0cf14c92cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 01/29] fix: refuse to combine ScalarCoefs whose nmax/mmax
 differ but whose lengths agree

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 24608ca..46bb043 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -545,7 +545,7 @@ class ScalarCoefs(object):
         @wraps(func)
         def verif(self, scoef):
             if isinstance(scoef, ScalarCoefs):
-                if len(self._vec) == len(scoef._vec):
+                if (self.nmax == scoef.nmax) and (self.mmax == scoef.mmax):
                     return ScalarCoefs(func(self, self._vec, scoef._vec),
                                         self.nmax,
                                         self.mmax)
-- 
2.43.0


From 37bf6c3369dd8ed6c6916ec265fbf957ead05f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 02/29] fix: compare the sizes of both operands when combining
 VectorCoefs

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 46bb043..dcbc2f0 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -819,7 +819,7 @@ class VectorCoefs(object):
         @wraps(func)
         def verif(self, vcoef):
             if isinstance(vcoef, VectorCoefs):
-                if len(vcoef.scoef1._vec) == len(vcoef.scoef1._vec):
+                if (self.nmax == vcoef.nmax) and (self.mmax == vcoef.mmax):
                     return VectorCoefs(func(self, self.scoef1._vec,
                                                   vcoef.scoef1._vec),
                                        func(self, self.scoef2._vec,
-- 
2.43.0


From 3d3a1710f366b19853db94ee94171b2765bdfc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 03/29] fix: L2_coef of VectorCoefs uses both sets of
 coefficients

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index dcbc2f0..6bb7d5d 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2187,7 +2187,7 @@ def L2_coef(coef):
         return np.sqrt(np.sum(np.abs(coef._vec) ** 2))
     elif isinstance(coef, VectorCoefs):
         l1 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
-        l2 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
+        l2 = np.sqrt(np.sum(np.abs(coef.scoef2._vec) ** 2))
         return np.sqrt(l1 ** 2 + l2 ** 2)
     
 def L2_patt(patt):
-- 
2.43.0


From 7e15b898a9fd50f9704256985207815125eaceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 04/29] fix: TransversePatternUniform.single_val looks at the
 phi component

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 6bb7d5d..ebf956a 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1238,7 +1238,7 @@ class TransversePatternUniform:
         """
         
         sv_t = self._sv(self._tdsphere)
-        sv_p = self._sv(self._tdsphere)
+        sv_p = self._sv(self._pdsphere)
         
         return (sv_t, sv_p)
         
-- 
2.43.0


From 67a5aaabbcf048526058fb7b68f885a3d2e30841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 05/29] fix: mag2 of ScalarCoefs returns the squared magnitude

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index ebf956a..9e01096 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1710,7 +1710,7 @@ def mag2(sobj):
     if isinstance(sobj, ScalarPatternUniform):
         return np.abs(sobj.array) ** 2
     elif isinstance(sobj, ScalarCoefs):
-        return ScalarCoefs(np.abs(sobj._vec), sobj.nmax, sobj.mmax)
+        return ScalarCoefs(np.abs(sobj._vec) ** 2, sobj.nmax, sobj.mmax)
     elif isinstance(sobj, TransversePatternUniform):
         return np.abs(sobj.theta) ** 2 + np.abs(sobj.phi) ** 2
     elif isinstance(sobj, VectorCoefs):
-- 
2.43.0


From 559148cbfeb0b5a24f167d48d609a81bddc0c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 06/29] fix: raise ZeroDivisionError instead of returning it

---
 spherepy/spherepy.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 9e01096..86e1fe8 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -601,7 +601,7 @@ class ScalarCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -619,7 +619,7 @@ class ScalarCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -881,7 +881,7 @@ class VectorCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -899,7 +899,7 @@ class VectorCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1132,7 +1132,7 @@ class ScalarPatternUniform(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1150,7 +1150,7 @@ class ScalarPatternUniform(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1332,7 +1332,7 @@ class TransversePatternUniform:
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1350,7 +1350,7 @@ class TransversePatternUniform:
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
-- 
2.43.0


From 16070647bb889c18b0c7f62462b431780a7a7f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 07/29] fix: c[n, :] = vec takes one value per existing mode
 when n > mmax

---
 spherepy/spherepy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 86e1fe8..b4167c1 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -405,13 +405,14 @@ class ScalarCoefs(object):
                 if (n > self.nmax) or (n < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
-                if (len(val) != 2 * n + 1):
-                    raise AttributeError(err_msg['dim_no_mtch'])
-
                 if n <= self.mmax:
                     nn = n
                 else:
                     nn = self.mmax            
+
+                if (len(val) != 2 * nn + 1):
+                    raise AttributeError(err_msg['dim_no_mtch'])
+
                 for k, m in enumerate(xrange(-nn, nn + 1)):
                     self.__setitem__((n, m), val[k])
 
-- 
2.43.0


From c58e312933b2def159c23a1c3ebd6090bc5ec9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 08/29] fix: c[0:stop, :] with a negative stop is out of bounds

---
 spherepy/spherepy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index b4167c1..3e933e2 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -509,7 +509,7 @@ class ScalarCoefs(object):
                 (arg[0].step is None) and
                 isinstance(arg[0].stop, int)):
                 
-                if (arg[0].stop > self.nmax):
+                if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
                 new_nmax = arg[0].stop
@@ -797,7 +797,7 @@ class VectorCoefs(object):
                 (arg[0].step is None) and
                 isinstance(arg[0].stop, int)):
                 
-                if (arg[0].stop > self.nmax):
+                if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
                 new_nmax = arg[0].stop
-- 
2.43.0


From 16cd25afa853867017847c334c97948246449414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 09/29] fix: double_sphere no longer doubles values whose
 product underflows

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 3e933e2..0432b05 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1775,7 +1775,7 @@ def double_sphere(cdata, sym):
                           np.mod(int(np.floor(ncols / 2)) + m, ncols)]
             t = cdata[n, m]
 
-            if s * t == 0:
+            if s == 0 or t == 0:
                 ddata[n, m] = s + t
             else:
                 ddata[n, m] = (s + t) / 2
-- 
2.43.0


From 5dd305e2c778da68b533c453f18391caf6db537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 10/29] fix: sph_harmonic_tp samples phi at ncols points

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 0432b05..7216486 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2233,7 +2233,7 @@ def sph_harmonic_tp(nrows, ncols, n, m):
     yvec = np.concatenate([num, nuvec])
     
     theta = np.linspace(0.0, np.pi, nrows)
-    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols)
+    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols, ncols)
     nu = np.array(range(-n, n + 1), dtype=np.complex128)
     
     out = np.zeros([nrows, ncols], dtype=np.complex128)
-- 
2.43.0


From be6a77f5628f9b3cd2084cf8548f070d1394c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 11/29] fix: sbesselj and sbessely accept N = 1

---
 spherepy/sbessel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index f856e6f..4522b7e 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -57,7 +57,8 @@ def sbessely(x, N):
     out = np.zeros(N, dtype=np.float64)
 
     out[0] = -np.cos(x) / x
-    out[1] = -np.cos(x) / (x ** 2) - np.sin(x) / x
+    if N > 1:
+        out[1] = -np.cos(x) / (x ** 2) - np.sin(x) / x
 
     for n in xrange(2, N):
         out[n] = ((2.0 * n - 1.0) / x) * out[n - 1] - out[n - 2]
@@ -77,6 +78,9 @@ def sbesselj(x, N):
     z = x ** 2
 
     out[0] = np.sin(x) / x
+    if N == 1:
+        return out
+
     j1 = np.sin(x) / z - np.cos(x) / x
 
     u = 1
-- 
2.43.0


From c4c37d0c9a455f2764015ebf12c789d1cbfc191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 12/29] fix: reject negative nmax and mmax before they reach
 the C routines

---
 spherepy/spherepy.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 7216486..6dad09e 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -78,6 +78,7 @@ err_msg['tuple_2_el'] = "tuple must have 2 elements"
 err_msg['ukn_coef_t'] = "unknown coefficient type"
 err_msg['ukn_patt_t'] = "unknown pattern type"
 err_msg['uknown_typ'] = "unknown type"
+err_msg['mmax_neg'] = "mmax must not be negative"
 err_msg['m_out_bound'] = "m value out of bounds"
 err_msg['n_out_bound'] = "n value out of bounds"
 err_msg['no_v0_mode'] = "monopoles (n = 0) do not exist for type VectorCoefs"
@@ -196,6 +197,9 @@ class ScalarCoefs(object):
         if mmax > nmax:
             raise ValueError(err_msg['nmax_g_mmax'])
 
+        if mmax < 0:
+            raise ValueError(err_msg['mmax_neg'])
+
         N = nmax + 1;
         NC = N + mmax * (2 * N - mmax - 1);
         if NC != len(vec):
@@ -646,6 +650,9 @@ class VectorCoefs(object):
         if mmax > nmax:
             raise ValueError(err_msg['nmax_g_mmax'])
 
+        if mmax < 0:
+            raise ValueError(err_msg['mmax_neg'])
+
         N = nmax + 1;
         NC = N + mmax * (2 * N - mmax - 1);
         if NC != len(vec1):
@@ -1868,6 +1875,9 @@ def spht(ssphere, nmax=None, mmax=None):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if mmax < 0:
+        raise ValueError(err_msg['mmax_neg'])
+
     if nmax >= ssphere.nrows - 1:
         raise ValueError(err_msg['nmax_too_lrg'])
 
@@ -1913,6 +1923,9 @@ def vspht(vsphere, nmax=None, mmax=None):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if mmax < 0:
+        raise ValueError(err_msg['mmax_neg'])
+
     if nmax >= vsphere.nrows - 1:
         raise ValueError(err_msg['nmax_too_lrg'])
 
-- 
2.43.0


From de8c78b79d0a6ea7859ad74587b76c8cf3fbf9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 13/29] fix: ispht rejects nrows = 1 instead of writing outside
 its work array

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 6dad09e..faefcf2 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2068,7 +2068,7 @@ def ispht(scoefs, nrows=None, ncols=None):
     if ncols == None:
         ncols = 2 * scoefs.mmax + 2
 
-    if nrows <= scoefs.nmax:
+    if nrows <= scoefs.nmax or nrows < 2:
         raise ValueError(err_msg['inverse_terr'])
 
     if ncols < 2 * scoefs.mmax + 2:
-- 
2.43.0


From 60d4126cd895e722959702bf9f46074869993cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 14/29] fix: spht and vspht honour mmax when nmax is left out

---
 spherepy/spherepy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index faefcf2..fb03d35 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1868,7 +1868,8 @@ def spht(ssphere, nmax=None, mmax=None):
 
     if nmax == None:
         nmax = ssphere.nrows - 2 
-        mmax = int(ssphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(ssphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
@@ -1916,7 +1917,8 @@ def vspht(vsphere, nmax=None, mmax=None):
     
     if nmax == None:
         nmax = vsphere.nrows - 2 
-        mmax = int(vsphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(vsphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
-- 
2.43.0


From 26568c797c3791ea3f679e4c215a823dff78f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 15/29] fix: ispht accepts coefficients with a real vector,
 such as those abs and mag return

---
 spherepy/spherepy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index fb03d35..1bc9510 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2083,7 +2083,8 @@ def ispht(scoefs, nrows=None, ncols=None):
 
     if use_cext: 
         fdata = np.zeros([dnrows, ncols], dtype=np.complex128)
-        csphi.sc_to_fc(fdata, scoefs._vec, scoefs._nmax, scoefs._mmax)
+        vec = np.ascontiguousarray(scoefs._vec, dtype=np.complex128)
+        csphi.sc_to_fc(fdata, vec, scoefs._nmax, scoefs._mmax)
     else:   
         fdata = pysphi.sc_to_fc(scoefs._vec,
                             scoefs._nmax,
-- 
2.43.0


From c239d0327d51ac960cd0a4e2fcb7494bdb1bd5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 16/29] fix: pcolor_coefs centres each cell on its mode

---
 spherepy/plot_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/plot_sphere.py b/spherepy/plot_sphere.py
index e07e67c..714e146 100644
--- a/spherepy/plot_sphere.py
+++ b/spherepy/plot_sphere.py
@@ -185,7 +185,7 @@ def pcolor_coefs(coefs):
     x, y = np.meshgrid(np.array(range(-coefs.mmax, coefs.mmax + 2)) - 0.5,
                       np.array(range(0, coefs.nmax + 2)) - 0.5)
 
-    plt.pcolormesh(x, y, z, cmap='jet', vmin=z_min, vmax=z_max)
+    plt.pcolormesh(x, y, z[:-1, :-1], cmap='jet', vmin=z_min, vmax=z_max)
     plt.title('Spherical Coefficients')
     plt.xlabel('m')
     plt.ylabel('n')
-- 
2.43.0


From 2756c1c631c3e529861196faafaf5618454493f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 17/29] fix: sbesselj is accurate at every positive argument

The continued fraction has poles below n = x, where it lost digits, divided
by zero or gave NaN (for example at x = sqrt(4 * N**2 - 1)), and for tiny x
the cancellation in j1 was taken for its value.
---
 spherepy/sbessel.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index 4522b7e..8e28d65 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -78,17 +78,27 @@ def sbesselj(x, N):
     z = x ** 2
 
     out[0] = np.sin(x) / x
-    if N == 1:
-        return out
 
-    j1 = np.sin(x) / z - np.cos(x) / x
+    # the upward recursion is stable as long as n <= x
+    nup = int(min(nmax, np.abs(x)))
+
+    if nup > 0:
+        out[1] = np.sin(x) / z - np.cos(x) / x
+
+    for n in xrange(2, nup + 1):
+        out[n] = ((2.0 * n - 1.0) / x) * out[n - 1] - out[n - 2]
 
+    if nup == nmax:
+        return out
+
+    # beyond that the ratios jn / jn-1 come from a continued fraction, which
+    # has no poles when n > x
     u = 1
     v = x / (2.0 * nmax + 1.0)
     w = v
     n = nmax
 
-    while(np.abs(v / w) > 1e-20):
+    while(np.abs(v) > 1e-20 * np.abs(w)):
         n = n + 1
         u = 1 / (1 - z * u / (4.0 * n ** 2 - 1.0))
         v *= u - 1
@@ -96,15 +106,10 @@ def sbesselj(x, N):
 
     out[nmax] = w
 
-    for n in xrange(nmax - 1, 0, -1):
+    for n in xrange(nmax - 1, nup, -1):
         out[n] = 1.0 / ((2.0 * n + 1.0) / x - out[n + 1])
 
-    if(np.abs(out[0]) >= np.abs(j1)):
-        out[1] *= out[0]
-    else:
-        out[1] = j1
-
-    for n in xrange(1, nmax):
+    for n in xrange(nup, nmax):
         out[n + 1] *= out[n]
 
     return out
-- 
2.43.0


From 4f1ce86ff1b099f1ccdb4ccfa949575261c95f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 18/29] fix: the coefficient factories refuse negative sizes
 with ValueError

ones_coefs(-1, -1, coef_type=vector) and the random factory raised
IndexError.
---
 spherepy/spherepy.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 1bc9510..d86dcc4 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1416,6 +1416,9 @@ def zeros_coefs(nmax, mmax, coef_type=scalar):
     if(mmax > nmax):
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if(mmax < 0):
+        raise ValueError(err_msg['mmax_neg'])
+
     if(coef_type == scalar):
         L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
         vec = np.zeros(L, dtype=np.complex128)
@@ -1462,6 +1465,9 @@ def ones_coefs(nmax, mmax, coef_type=scalar):
 
     if(mmax > nmax):
         raise ValueError(err_msg['nmax_g_mmax'])
+
+    if(mmax < 0):
+        raise ValueError(err_msg['mmax_neg'])
     
     if(coef_type == scalar):
         L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
@@ -1513,6 +1519,9 @@ def random_coefs(nmax, mmax, mu=0.0, sigma=1.0, coef_type=scalar):
     if(mmax > nmax):
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if(mmax < 0):
+        raise ValueError(err_msg['mmax_neg'])
+
     if(coef_type == scalar):
         L = (nmax + 1) + mmax * (2 * nmax - mmax + 1)
         vec = np.random.normal(mu, sigma, L) + \
-- 
2.43.0


From b761f46655d97c81f890f964d1ac8043ef07f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 19/29] fix: window refuses a vector of the wrong length

A single value was broadcast over every mode, or over the m = 0 column
only before an error was raised.
---
 spherepy/spherepy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index d86dcc4..1b29c87 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -265,6 +265,9 @@ class ScalarCoefs(object):
 
         """
 
+        if len(vec) != self.nmax + 1:
+            raise ValueError(err_msg['dim_no_mtch'])
+
         slce = slice(None, None, None)
         
         self.__setitem__((slce, 0), self.__getitem__((slce, 0)) * vec)  
-- 
2.43.0


From 830db8e9c8d34d5033c676ac8c5624e5209abfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 20/29] fix: pretty_coefs prints coefficient sets of any size

It raised AttributeError for nmax < 2.
---
 spherepy/spherepy.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 1b29c87..4ce61d4 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1833,13 +1833,14 @@ def pretty_coefs(c):
 
     """
 
-    cfit = c[0:2, :]
-    cvec = cfit._vec
+    sa = []
 
-    sa = [_tiny_rep(val) for val in cvec]
-
-    while len(sa) < 9:
-        sa.append("")
+    for n, m in [(0, 0), (1, 0), (2, 0), (1, -1), (2, -1), 
+                 (1, 1), (2, 1), (2, -2), (2, 2)]:
+        if n <= c.nmax and np.abs(m) <= c.mmax:
+            sa.append(_tiny_rep(c[n, m]))
+        else:
+            sa.append("")
 
     sa = [sa[n].center(13) for n in range(0, 9)]
 
-- 
2.43.0


From 7740e73ff95794c597a0ca62c985c8c42f4a1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 21/29] fix: writing complex values to a real coefficient set
 keeps the imaginary part

---
 spherepy/spherepy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 4ce61d4..6ee0c39 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -379,6 +379,10 @@ class ScalarCoefs(object):
         if len(arg) != 2:
             raise AttributeError(err_msg['tuple_2_el'])
 
+        # sets made by abs, mag and mag2 hold real numbers only
+        if np.iscomplexobj(val) and not np.iscomplexobj(self._vec):
+            self._vec = self._vec.astype(np.complex128)
+
         if isinstance(arg[0], slice) and isinstance(arg[1], int):
 
             m = arg[1]
-- 
2.43.0


From c8a94a383ac919bbed3b12701cea3d6745d6feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 22/29] fix: windowing a set with its own m = 0 column applied
 it twice to the other columns

---
 spherepy/spherepy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 6ee0c39..801ff36 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -268,6 +268,8 @@ class ScalarCoefs(object):
         if len(vec) != self.nmax + 1:
             raise ValueError(err_msg['dim_no_mtch'])
 
+        # vec may be a column of these coefficients
+        vec = np.array(vec)
         slce = slice(None, None, None)
         
         self.__setitem__((slce, 0), self.__getitem__((slce, 0)) * vec)  
-- 
2.43.0


From af50cd6604bb15c98aaa25a9f428b53c50b24335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:00 +0000
Subject: [PATCH 23/29] fix: spherical Bessel functions of arguments whose
 square overflows

---
 spherepy/sbessel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index 8e28d65..ac10a21 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -58,7 +58,7 @@ def sbessely(x, N):
 
     out[0] = -np.cos(x) / x
     if N > 1:
-        out[1] = -np.cos(x) / (x ** 2) - np.sin(x) / x
+        out[1] = (-np.cos(x) / x - np.sin(x)) / x
 
     for n in xrange(2, N):
         out[n] = ((2.0 * n - 1.0) / x) * out[n - 1] - out[n - 2]
@@ -75,7 +75,6 @@ def sbesselj(x, N):
 
     nmax = N - 1;
     out = np.zeros(N, dtype=np.float64)
-    z = x ** 2
 
     out[0] = np.sin(x) / x
 
@@ -83,7 +82,7 @@ def sbesselj(x, N):
     nup = int(min(nmax, np.abs(x)))
 
     if nup > 0:
-        out[1] = np.sin(x) / z - np.cos(x) / x
+        out[1] = (np.sin(x) / x - np.cos(x)) / x
 
     for n in xrange(2, nup + 1):
         out[n] = ((2.0 * n - 1.0) / x) * out[n - 1] - out[n - 2]
@@ -93,6 +92,7 @@ def sbesselj(x, N):
 
     # beyond that the ratios jn / jn-1 come from a continued fraction, which
     # has no poles when n > x
+    z = x ** 2
     u = 1
     v = x / (2.0 * nmax + 1.0)
     w = v
-- 
2.43.0


From 58ec92a02327dc582d50e5b0777cf30d9721be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:43 +0000
Subject: [PATCH 24/29] fix: magnitudes and norms of values whose squares over-
 or underflow

---
 spherepy/spherepy.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 801ff36..2606361 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1752,9 +1752,10 @@ def mag(sobj):
     elif isinstance(sobj, ScalarCoefs):
         return ScalarCoefs(np.abs(sobj._vec), sobj.nmax, sobj.mmax)
     elif isinstance(sobj, TransversePatternUniform):
-        return np.sqrt(mag2(sobj))
+        return np.hypot(np.abs(sobj.theta), np.abs(sobj.phi))
     elif isinstance(sobj, VectorCoefs):
-        return ScalarCoefs(np.sqrt(mag2(sobj)._vec),
+        return ScalarCoefs(np.hypot(np.abs(sobj.scoef1._vec),
+                                    np.abs(sobj.scoef2._vec)),
                            sobj.nmax, sobj.mmax)
     else:
         raise TypeError(err_msg['uknown_typ'])
@@ -2217,23 +2218,35 @@ def ispht_slow(scoefs, nrows, ncols):
 
     return ScalarPatternUniform(ds, doublesphere=True)
 
+def _l2(data):
+    """Root of the sum of the squared magnitudes. The values are scaled so that
+    their squares neither overflow nor underflow."""
+
+    z = np.abs(data)
+    big = np.max(z)
+
+    if big == 0 or not np.isfinite(big):
+        return big
+
+    return big * np.sqrt(np.sum((z / big) ** 2))
+
 def L2_coef(coef):
 
     if isinstance(coef, ScalarCoefs):
-        return np.sqrt(np.sum(np.abs(coef._vec) ** 2))
+        return _l2(coef._vec)
     elif isinstance(coef, VectorCoefs):
-        l1 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
-        l2 = np.sqrt(np.sum(np.abs(coef.scoef2._vec) ** 2))
-        return np.sqrt(l1 ** 2 + l2 ** 2)
+        l1 = _l2(coef.scoef1._vec)
+        l2 = _l2(coef.scoef2._vec)
+        return np.hypot(l1, l2)
     
 def L2_patt(patt):
 
     if isinstance(patt, ScalarPatternUniform):
-        return np.sqrt(np.sum(np.abs(patt._dsphere) ** 2))
+        return _l2(patt._dsphere)
     elif isinstance(patt, TransversePatternUniform):
-        l1 = np.sqrt(np.sum(np.abs(patt._tdsphere) ** 2))
-        l2 = np.sqrt(np.sum(np.abs(patt._pdsphere) ** 2))
-        return np.sqrt(l1 ** 2 + l2 ** 2)
+        l1 = _l2(patt._tdsphere)
+        l2 = _l2(patt._pdsphere)
+        return np.hypot(l1, l2)
 
 def LInf_coef(coef):
 
@@ -2242,7 +2255,7 @@ def LInf_coef(coef):
     elif isinstance(coef, VectorCoefs):
         l1 = np.max(np.abs(coef.scoef1._vec))
         l2 = np.max(np.abs(coef.scoef2._vec))
-        return np.sqrt(l1 ** 2 + l2 ** 2)
+        return np.hypot(l1, l2)
     
 def LInf_patt(patt):
 
@@ -2251,7 +2264,7 @@ def LInf_patt(patt):
     elif isinstance(patt, TransversePatternUniform):
         l1 = np.amax(np.abs(patt._tdsphere))
         l2 = np.amax(np.abs(patt._pdsphere))
-        return np.sqrt(l1 ** 2 + l2 ** 2)
+        return np.hypot(l1, l2)
         
 
 def sph_harmonic_tp(nrows, ncols, n, m):
-- 
2.43.0


From 8429e98afe4f50b06ab35c0602af2b3c01862dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 25/29] fix: arithmetic with large integers and fractions kept
 object arrays that no transform accepts

---
 spherepy/spherepy.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 2606361..ae76e27 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -136,6 +136,17 @@ n  -------------  -------------  -------------  -------------  -------------
 # Classes
 #==============================================================================
 
+def _plain(number):
+    """Numbers that numpy has no type for, such as integers of more than 64 bits
+    and fractions, as floating point numbers."""
+
+    if np.asarray(number).dtype == object:
+        if isinstance(number, numbers.Real):
+            return float(number)
+        return complex(number)
+
+    return number
+
 class ScalarCoefs(object):
     """This is the object for holding scalar spherical harmonic coefficients.
     To generate one of these objects it's best to used one of the factory 
@@ -569,6 +580,7 @@ class ScalarCoefs(object):
                                      scoef.nmax, scoef.mmax))
         
             elif isinstance(scoef, numbers.Number):
+                scoef = _plain(scoef)
                 return ScalarCoefs(func(self, self._vec, scoef), self.nmax,
                                    self.mmax)
             else:
@@ -581,6 +593,7 @@ class ScalarCoefs(object):
         @wraps(func)
         def verif(self, scoef):
             if isinstance(scoef, numbers.Number):
+                scoef = _plain(scoef)
                 return ScalarCoefs(func(self, self._vec, scoef),
                                    self.nmax, self.mmax)
             else:
@@ -849,6 +862,7 @@ class VectorCoefs(object):
                                      vcoef.nmax, vcoef.mmax))
         
             elif isinstance(vcoef, numbers.Number):
+                vcoef = _plain(vcoef)
                 return VectorCoefs(func(self, self.scoef1._vec, vcoef),
                                    func(self, self.scoef2._vec, vcoef),
                                    self.nmax,
@@ -863,6 +877,7 @@ class VectorCoefs(object):
         @wraps(func)
         def verif(self, vcoef):
             if isinstance(vcoef, numbers.Number):
+                vcoef = _plain(vcoef)
                 return VectorCoefs(func(self, self.scoef1._vec, vcoef),
                                    func(self, self.scoef2._vec, vcoef),
                                    self.nmax, self.mmax)
@@ -1103,6 +1118,7 @@ class ScalarPatternUniform(object):
                                             patt.nrows, patt.ncols))
         
             elif isinstance(patt, numbers.Number):
+                patt = _plain(patt)
                 return ScalarPatternUniform(func(self, self._dsphere, patt),
                                             doublesphere=True)
             else:
@@ -1115,6 +1131,7 @@ class ScalarPatternUniform(object):
         @wraps(func)
         def verif(self, patt):
             if isinstance(patt, numbers.Number):
+                patt = _plain(patt)
                 return ScalarPatternUniform(func(self, self._dsphere, patt),
                                    doublesphere=True)
             else:
@@ -1301,6 +1318,7 @@ class TransversePatternUniform:
                                             patt.nrows, patt.ncols))
         
             elif isinstance(patt, numbers.Number):
+                patt = _plain(patt)
                 return TransversePatternUniform(func(self, self._tdsphere, patt),
                                             func(self, self._pdsphere, patt),
                                             doublesphere=True)
@@ -1314,6 +1332,7 @@ class TransversePatternUniform:
         @wraps(func)
         def verif(self, patt):
             if isinstance(patt, numbers.Number):
+                patt = _plain(patt)
                 return TransversePatternUniform(func(self, self._tdsphere, patt),
                                             func(self, self._pdsphere, patt),
                                             doublesphere=True)
-- 
2.43.0


From 696cb7a7710c26ebddeb5c77e6772b10ba494eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:01 +0000
Subject: [PATCH 26/29] fix: a refused write of a row, a column or a pair of
 values changes nothing

---
 spherepy/spherepy.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index ae76e27..027e137 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -414,7 +414,8 @@ class ScalarCoefs(object):
                 if len(val) != L:
                     raise AttributeError(err_msg['dim_no_mtch'])
                 else:
-                    self._vec[idx_start:idx_stop] = val
+                    col = np.array(val, dtype=self._vec.dtype)
+                    self._vec[idx_start:idx_stop] = col
             else:
                 raise AttributeError(err_msg['slice_noper'])
 
@@ -437,8 +438,12 @@ class ScalarCoefs(object):
                 if (len(val) != 2 * nn + 1):
                     raise AttributeError(err_msg['dim_no_mtch'])
 
+                row = np.zeros(2 * nn + 1, dtype=self._vec.dtype)
+                for k in xrange(0, 2 * nn + 1):
+                    row[k] = val[k]
+
                 for k, m in enumerate(xrange(-nn, nn + 1)):
-                    self.__setitem__((n, m), val[k])
+                    self.__setitem__((n, m), row[k])
 
             else:
                 raise AttributeError(err_msg['slice_noper'])
@@ -769,11 +774,14 @@ class VectorCoefs(object):
                 raise AttributeError(err_msg['no_v0_mode'])
             m = arg[1]
 
+            old = self.scoef1[n, m]
+
+            self.scoef1[n, m] = val[0]
             try:
-                self.scoef1[n, m] = val[0]
                 self.scoef2[n, m] = val[1]
-            except IndexError:
-                AttributeError(err_msg['set_vc_val'])
+            except Exception:
+                self.scoef1[n, m] = old
+                raise
 
         else:
             raise AttributeError(err_msg['idx_no_rec'])
-- 
2.43.0


From 41f0080743f435fc358e684b6dc16e5d82940ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:51 +0000
Subject: [PATCH 27/29] fix: sizes and indices may be integers of numpy, as
 they come out of its arrays

---
 spherepy/spherepy.py | 53 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 027e137..92fde9b 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -147,6 +147,13 @@ def _plain(number):
 
     return number
 
+def _whole(*sizes):
+    """Sizes and indices of any integer type, numpy's among them, as Python's
+    own. Anything else is left as it is."""
+
+    return tuple(int(k) if isinstance(k, numbers.Integral) else k
+                 for k in sizes)
+
 class ScalarCoefs(object):
     """This is the object for holding scalar spherical harmonic coefficients.
     To generate one of these objects it's best to used one of the factory 
@@ -205,6 +212,8 @@ class ScalarCoefs(object):
     """
     def __init__(self, vec, nmax, mmax):
         
+        nmax, mmax = _whole(nmax, mmax)
+
         if mmax > nmax:
             raise ValueError(err_msg['nmax_g_mmax'])
 
@@ -392,6 +401,8 @@ class ScalarCoefs(object):
         if len(arg) != 2:
             raise AttributeError(err_msg['tuple_2_el'])
 
+        arg = _whole(*arg)
+
         # sets made by abs, mag and mag2 hold real numbers only
         if np.iscomplexobj(val) and not np.iscomplexobj(self._vec):
             self._vec = self._vec.astype(np.complex128)
@@ -471,6 +482,8 @@ class ScalarCoefs(object):
         if len(arg) != 2:
             raise AttributeError(err_msg['tuple_2_el'])  
 
+        arg = _whole(*arg)
+
         if isinstance(arg[0], slice) and isinstance(arg[1], int):
 
             m = arg[1]
@@ -536,12 +549,12 @@ class ScalarCoefs(object):
                 (arg[1].stop is None) and
                 (arg[0].start == 0) and
                 (arg[0].step is None) and
-                isinstance(arg[0].stop, int)):
+                isinstance(arg[0].stop, numbers.Integral)):
                 
                 if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
-                new_nmax = arg[0].stop
+                new_nmax = int(arg[0].stop)
                 if new_nmax > self.mmax:
                     new_mmax = self.mmax
                 else:
@@ -671,6 +684,8 @@ class VectorCoefs(object):
     The function vspht returns this object"""
     def __init__(self, vec1, vec2, nmax, mmax):
         
+        nmax, mmax = _whole(nmax, mmax)
+
         if(vec1.shape != vec2.shape):
             raise ValueError(err_msg['vec1_s_vec2'])
             
@@ -753,6 +768,8 @@ class VectorCoefs(object):
         
         if len(arg) != 2:
             raise AttributeError(err_msg['tuple_2_el'])
+
+        arg = _whole(*arg)
         
         if isinstance(val, (list, tuple)):
             if len(val) != 2:
@@ -791,6 +808,8 @@ class VectorCoefs(object):
         if len(arg) != 2:
             raise AttributeError(err_msg['tuple_2_el'])  
 
+        arg = _whole(*arg)
+
         if isinstance(arg[0], slice) and isinstance(arg[1], int):
 
             m = arg[1]
@@ -832,12 +851,12 @@ class VectorCoefs(object):
                 (arg[1].stop is None) and
                 (arg[0].start == 0) and
                 (arg[0].step is None) and
-                isinstance(arg[0].stop, int)):
+                isinstance(arg[0].stop, numbers.Integral)):
                 
                 if (arg[0].stop > self.nmax) or (arg[0].stop < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
-                new_nmax = arg[0].stop
+                new_nmax = int(arg[0].stop)
                 if new_nmax > self.mmax:
                     new_mmax = self.mmax
                 else:
@@ -1449,6 +1468,8 @@ def zeros_coefs(nmax, mmax, coef_type=scalar):
 
     """
 
+    nmax, mmax = _whole(nmax, mmax)
+
     if(mmax > nmax):
         raise ValueError(err_msg['nmax_g_mmax'])
 
@@ -1499,6 +1520,8 @@ def ones_coefs(nmax, mmax, coef_type=scalar):
 
     """
 
+    nmax, mmax = _whole(nmax, mmax)
+
     if(mmax > nmax):
         raise ValueError(err_msg['nmax_g_mmax'])
 
@@ -1552,6 +1575,8 @@ def random_coefs(nmax, mmax, mu=0.0, sigma=1.0, coef_type=scalar):
 
     """
 
+    nmax, mmax = _whole(nmax, mmax)
+
     if(mmax > nmax):
         raise ValueError(err_msg['nmax_g_mmax'])
 
@@ -1609,6 +1634,8 @@ def zeros_patt_uniform(nrows, ncols, patt_type=scalar):
       TypeError: If coef_type is anything but 0 or 1.
 
     """
+
+    nrows, ncols = _whole(nrows, ncols)
     
     if np.mod(ncols, 2) == 1:
         raise ValueError(err_msg['ncols_even'])
@@ -1659,6 +1686,8 @@ def ones_patt_uniform(nrows, ncols, patt_type=scalar):
       TypeError: If coef_type is anything but 0 or 1.
 
     """
+
+    nrows, ncols = _whole(nrows, ncols)
     
     if np.mod(ncols, 2) == 1:
         raise ValueError(err_msg['ncols_even'])
@@ -1711,6 +1740,8 @@ def random_patt_uniform(nrows, ncols, patt_type=scalar):
 
     """
 
+    nrows, ncols = _whole(nrows, ncols)
+
     if np.mod(ncols, 2) == 1:
         raise ValueError(err_msg['ncols_even'])
 
@@ -1913,6 +1944,8 @@ def spht(ssphere, nmax=None, mmax=None):
 
     """
 
+    nmax, mmax = _whole(nmax, mmax)
+
     if nmax == None:
         nmax = ssphere.nrows - 2 
         if mmax == None:
@@ -1961,6 +1994,8 @@ def spht(ssphere, nmax=None, mmax=None):
 def vspht(vsphere, nmax=None, mmax=None):
     """Returns a VectorCoefs object containt the vector spherical harmonic
     coefficients of the TransversePatternUniform object"""
+
+    nmax, mmax = _whole(nmax, mmax)
     
     if nmax == None:
         nmax = vsphere.nrows - 2 
@@ -2058,6 +2093,8 @@ def spht_slow(ssphere, nmax, mmax):
 
     """
 
+    nmax, mmax = _whole(nmax, mmax)
+
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
@@ -2111,6 +2148,8 @@ def ispht(scoefs, nrows=None, ncols=None):
 
     """
 
+    nrows, ncols = _whole(nrows, ncols)
+
     if nrows == None:
         nrows = scoefs.nmax + 2 
 
@@ -2231,6 +2270,10 @@ def ispht_slow(scoefs, nrows, ncols):
 
     """
 
+    nrows, ncols = _whole(nrows, ncols)
+
+    nrows, ncols = _whole(nrows, ncols)
+
     dnrows = 2 * nrows - 2
 
     if np.mod(ncols, 2) == 1:
@@ -2302,6 +2345,8 @@ def sph_harmonic_tp(nrows, ncols, n, m):
         phi runs from 0 to 2*pi - 2*pi/ncols and has 'ncols' points.
     
     """
+
+    nrows, ncols, n, m = _whole(nrows, ncols, n, m)
     nuvec = pysphi.ynunm(n, m, n + 1)
     num = nuvec[1:] * (-1) ** m
     num = num[::-1]
-- 
2.43.0


From 173fa744a0a4410a0eb137e8615d3596790e89ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:35 +0000
Subject: [PATCH 28/29] fix: vispht converts numpy integer sizes to int as
 ispht does

The conversion had landed twice in ispht_slow instead; with NumPy 2 a narrow
integer type keeps its width, so 2 * nrows - 2 could wrap round.
---
 spherepy/spherepy.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 92fde9b..b0ceb27 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2183,7 +2183,7 @@ def ispht(scoefs, nrows=None, ncols=None):
 
 def vispht(vcoefs, nrows=None, ncols=None):
 
-
+    nrows, ncols = _whole(nrows, ncols)
 
     if nrows == None:
         nrows = vcoefs.nmax + 2 
@@ -2272,8 +2272,6 @@ def ispht_slow(scoefs, nrows, ncols):
 
     nrows, ncols = _whole(nrows, ncols)
 
-    nrows, ncols = _whole(nrows, ncols)
-
     dnrows = 2 * nrows - 2
 
     if np.mod(ncols, 2) == 1:
-- 
2.43.0


From e9dea5ab54c74b8da40f46b8a6d0677feb546e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:05 +0000
Subject: [PATCH 29/29] fix: the Bessel routines work in double precision for
 every type of argument

---
 spherepy/sbessel.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index ac10a21..bbd007a 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -35,6 +35,8 @@ from __future__ import division
 from __future__ import print_function
 from __future__ import absolute_import
 
+from operator import index as _index
+
 #---------------------------------------------------------------------3rd Party
 import numpy as np
 
@@ -46,6 +48,15 @@ from six.moves import xrange  # @UnresolvedImport
 # Routines
 #==============================================================================
 
+def _double(x, N):
+    """The argument in double precision: numpy computes the sine of its narrow
+    types in a precision as low as theirs. The number of orders as an int."""
+    if isinstance(x, int):
+        x = float(x)
+    elif not isinstance(x, float):
+        x = np.float64(x)
+    return x, _index(N)
+
 def sbessely(x, N):
     """Returns a vector of spherical bessel functions yn:
 
@@ -54,6 +65,7 @@ def sbessely(x, N):
 
     """
 
+    x, N = _double(x, N)
     out = np.zeros(N, dtype=np.float64)
 
     out[0] = -np.cos(x) / x
@@ -73,6 +85,7 @@ def sbesselj(x, N):
 
     """
 
+    x, N = _double(x, N)
     nmax = N - 1;
     out = np.zeros(N, dtype=np.float64)
 
@@ -210,6 +223,7 @@ def sbessel_test_cross_product(z, N):
     The routine returns the maximum of the relative error.
     """
 
+    z, N = _double(z, N)
     y1 = sbessely(z, N + 1)
     j1 = sbesselj(z, N + 1)
 
-- 
2.43.0

