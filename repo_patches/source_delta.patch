From 0de1ab470001f17a75284f1557543471af03bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 01/20] fix: kep_to_cart and cart_to_kep modified the caller's
 array

---
 pyorb/kepler.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0e297d2..2875f41 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -376,12 +376,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     if len(cart.shape) < 2:
         input_is_vector = True
-        try:
-            cart.shape = (6, 1)
-        except ValueError as e:
-            print(f'Error {e} while trying to cast vector into single column.')
-            print(f'Input array shape: {cart.shape}')
-            raise
+        cart = cart.reshape(6, 1)
     else:
         input_is_vector = False
 
@@ -541,7 +536,6 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
         o[2:, :] = np.degrees(o[2:, :])
 
     if input_is_vector:
-        cart.shape = (6,)
         o.shape = (6,)
 
     return o
@@ -1717,14 +1711,12 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
         raise ValueError(f'Input data must have at least 6 variables \
             along axis 0: input shape is {kep.shape}')
 
+    # the elements are transformed below, do not touch the input
+    kep = kep.copy()
+
     if len(kep.shape) < 2:
         input_is_vector = True
-        try:
-            kep.shape = (6, 1)
-        except ValueError as e:
-            print(f'Error {e} while trying to cast vector into single column.')
-            print(f'Input array shape: {kep.shape}')
-            raise
+        kep.shape = (6, 1)
     else:
         input_is_vector = False
 
@@ -1780,9 +1772,5 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
 
     if input_is_vector:
         x.shape = (6,)
-        kep.shape = (6,)
-
-    if degrees:
-        kep[2:, ...] = np.degrees(kep[2:, ...])
 
     return x
-- 
2.43.0


From 8816f3955825da5f70b5de75c96da9dcf43eb379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 02/20] fix: anomaly conversions returned uninitialised memory
 for NaN eccentricity

---
 pyorb/kepler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 2875f41..ba872a7 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -650,7 +650,7 @@ def true_to_eccentric(nu, e, degrees=False):
         E = np.empty(_nu.shape, dtype=_nu.dtype)
         hyp = e > 1
         per = e == 1
-        eli = e < 1
+        eli = np.logical_not(np.logical_or(hyp, per))
 
         E[hyp] = 2.0*np.arctanh(
             np.sqrt((e[hyp] - 1.0)/(e[hyp] + 1.0))*np.tan(_nu[hyp]*0.5)
@@ -709,7 +709,7 @@ def eccentric_to_true(E, e, degrees=False):
         nu = np.empty(_E.shape, dtype=_E.dtype)
         hyp = e > 1
         per = e == 1
-        eli = e < 1
+        eli = np.logical_not(np.logical_or(hyp, per))
 
         nu[hyp] = 2.0*np.arctan(
             np.sqrt((e[hyp] + 1.0)/(e[hyp] - 1.0))*np.tanh(_E[hyp]*0.5)
@@ -768,7 +768,7 @@ def eccentric_to_mean(E, e, degrees=False):
         M = np.empty(_E.shape, dtype=_E.dtype)
         hyp = e > 1
         per = e == 1
-        eli = e < 1
+        eli = np.logical_not(np.logical_or(hyp, per))
 
         M[hyp] = e[hyp]*np.sinh(_E[hyp]) - _E[hyp]
         M[per] = _E[per] + _E[per]**3/3.0
-- 
2.43.0


From 7d12cfaae69edc457b4853ce28797a3c623579e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 03/20] fix: unbound anomalies were wrapped to one revolution
 and negative ones diverged

---
 pyorb/kepler.py | 6 +++---
 pyorb/orbit.py  | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index ba872a7..7a6d245 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -659,6 +659,7 @@ def true_to_eccentric(nu, e, degrees=False):
         E[eli] = 2.0*np.arctan(
             np.sqrt((1.0 - e[eli])/(1.0 + e[eli]))*np.tan(_nu[eli]*0.5)
         )
+        E[eli] = np.mod(E[eli] + 2.*np.pi, 2.*np.pi)
     else:
         if e > 1:
             E = 2.0*np.arctanh(np.sqrt((e - 1.0)/(e + 1.0))*np.tan(_nu*0.5))
@@ -666,8 +667,7 @@ def true_to_eccentric(nu, e, degrees=False):
             E = np.tan(_nu*0.5)
         else:
             E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*np.tan(_nu*0.5))
-
-    E = np.mod(E + 2.*np.pi, 2.*np.pi)
+            E = np.mod(E + 2.*np.pi, 2.*np.pi)
 
     if degrees:
         E = np.degrees(E)
@@ -1138,7 +1138,7 @@ def _get_hyperbolic_kepler_guess(M, e):
         equation. II,” Celestial Mechanics, vol. 31, pp. 317–328, Nov. 1983,
         doi: 10.1007/BF01844230.
     '''
-    E0 = np.log(2*M/e + 1.8)
+    E0 = np.sign(M)*np.log(2*np.abs(M)/e + 1.8)
     return E0
 
 
diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a735a50..2520661 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -238,8 +238,10 @@ class Orbit:
             wrap_ = 360.0
         else:
             wrap_ = 2*np.pi
-        self.mean_anomaly = np.mod(
-            self.mean_anomaly + self.mean_motion*dt, wrap_)
+        mean_anomaly = self.mean_anomaly + self.mean_motion*dt
+        # only bound orbits are periodic
+        self.mean_anomaly = np.where(
+            self.e < 1, np.mod(mean_anomaly, wrap_), mean_anomaly)
         if self.direct_update:
             self.calculate_cartesian()
 
-- 
2.43.0


From 8acc94e4aeabd12bcb187038020a2991b8da09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 04/20] fix: cart_to_kep returned an infinite size for
 parabolic orbits

---
 pyorb/kepler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 7a6d245..b5acc6f 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -409,6 +409,10 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     # ## ANUGLAR MOMENTUM ###
     h = np.cross(r, v, axisa=0, axisb=0, axisc=0)
     hn = np.linalg.norm(h, axis=0)
+    # parabolic orbits: periapsis distance
+    per = o[1, :] == 1
+    o[0, per] = (hn**2/(2.0*mu))[per]
+
     o[2, :] = np.arccos(h[2, :]/hn)
 
     # possible cases
-- 
2.43.0


From 3c5b123e24257cb3567f8bfac3f459dff460739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 05/20] fix: results for integer arrays were truncated to
 integers

---
 pyorb/kepler.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index b5acc6f..b5b7cd2 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -147,6 +147,13 @@ considered not inclined
 """
 
 
+def _float_dtype(dtype):
+    '''Floating point data-type to store results calculated from `dtype`.'''
+    if np.issubdtype(dtype, np.floating):
+        return dtype
+    return np.dtype(np.float64)
+
+
 def cart_to_equi(cart, mu=GM_sol, degrees=False):
     '''Converts set of Cartesian state vectors to set of Equinoctial orbital
     elements.
@@ -264,7 +271,7 @@ def kep_to_equi(kep, degrees=False):
         OM = np.radians(OM)
         hi = np.radians(hi)
 
-    elems = np.empty(kep.shape, dtype=kep.dtype)
+    elems = np.empty(kep.shape, dtype=_float_dtype(kep.dtype))
 
     elems[E_a, ...] = kep[K_a, ...]
     elems[E_h, ...] = kep[K_e, ...]*np.sin(om_bar)  # h
@@ -304,7 +311,7 @@ def equi_to_kep(equi, degrees=False):
     '''
 
     _circ = 360.0 if degrees else _2pi
-    kep = np.empty(equi.shape, dtype=equi.dtype)
+    kep = np.empty(equi.shape, dtype=_float_dtype(equi.dtype))
 
     kep[K_a, ...] = equi[E_a, ...]  # a
     kep[K_e, ...] = np.sqrt(equi[E_h, ...] ** 2 + equi[E_k, ...] ** 2)  # e
@@ -382,7 +389,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     ez = np.array([0, 0, 1], dtype=cart.dtype)
 
-    o = np.empty(cart.shape, dtype=cart.dtype)
+    o = np.empty(cart.shape, dtype=_float_dtype(cart.dtype))
 
     r = cart[:3, :]
     v = cart[3:, :]
@@ -436,7 +443,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     # ## ASCENDING NODE ###
     # ascending node pointing vector
-    n = np.empty_like(h)
+    n = np.empty_like(h, dtype=hn.dtype)
     nn = np.empty_like(hn)
     n[:, ig] = np.cross(ez, h[:, ig], axisa=0, axisb=0, axisc=0)
     nn[ig] = np.linalg.norm(n[:, ig], axis=0)
@@ -651,7 +658,7 @@ def true_to_eccentric(nu, e, degrees=False):
         if _nu.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E = np.empty(_nu.shape, dtype=_nu.dtype)
+        E = np.empty(_nu.shape, dtype=_float_dtype(_nu.dtype))
         hyp = e > 1
         per = e == 1
         eli = np.logical_not(np.logical_or(hyp, per))
@@ -710,7 +717,7 @@ def eccentric_to_true(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        nu = np.empty(_E.shape, dtype=_E.dtype)
+        nu = np.empty(_E.shape, dtype=_float_dtype(_E.dtype))
         hyp = e > 1
         per = e == 1
         eli = np.logical_not(np.logical_or(hyp, per))
@@ -769,7 +776,7 @@ def eccentric_to_mean(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        M = np.empty(_E.shape, dtype=_E.dtype)
+        M = np.empty(_E.shape, dtype=_float_dtype(_E.dtype))
         hyp = e > 1
         per = e == 1
         eli = np.logical_not(np.logical_or(hyp, per))
@@ -1216,7 +1223,7 @@ def kepler_guess(M, e):
         if M.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E0 = np.empty(M.shape, dtype=M.dtype)
+        E0 = np.empty(M.shape, dtype=_float_dtype(M.dtype))
 
         out_it = E0.size
         Mit = np.nditer(M)
@@ -1292,7 +1299,7 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
         if _M.shape != e.shape:
             raise TypeError(f'Input dimensions does not agree \
                 M:{_M.shape} != e:{e.shape}')
-        E = np.empty(_M.shape, dtype=_M.dtype)
+        E = np.empty(_M.shape, dtype=_float_dtype(_M.dtype))
         if _M.size == 0:
             return E
 
@@ -1716,7 +1723,7 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
             along axis 0: input shape is {kep.shape}')
 
     # the elements are transformed below, do not touch the input
-    kep = kep.copy()
+    kep = kep.astype(_float_dtype(kep.dtype))
 
     if len(kep.shape) < 2:
         input_is_vector = True
-- 
2.43.0


From cd3e83403092e10266c26e68ef54abb42a400560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 06/20] fix: Stumpff functions failed on floats and returned
 uninitialised memory for NaN

---
 pyorb/kepler.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index b5b7cd2..3bba891 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1489,7 +1489,8 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c0 = np.empty_like(x)
+    x = np.asarray(x)
+    c0 = np.full(x.shape, np.nan, dtype=_float_dtype(x.dtype))
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
 
@@ -1497,7 +1498,7 @@ def stumpff0(x):
 
     inds = x < 0
     c0[inds] = np.cosh(np.sqrt(-x[inds]))
-    return c0
+    return c0[()]
 
 
 def stumpff1(x):
@@ -1517,7 +1518,8 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c1 = np.empty_like(x)
+    x = np.asarray(x)
+    c1 = np.full(x.shape, np.nan, dtype=_float_dtype(x.dtype))
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
 
@@ -1525,7 +1527,7 @@ def stumpff1(x):
 
     inds = x < 0
     c1[inds] = np.sinh(np.sqrt(-x[inds]))/np.sqrt(-x[inds])
-    return c1
+    return c1[()]
 
 
 def stumpff2(x):
@@ -1545,7 +1547,8 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c2 = np.empty_like(x)
+    x = np.asarray(x)
+    c2 = np.full(x.shape, np.nan, dtype=_float_dtype(x.dtype))
     inds = x > 0
     c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
 
@@ -1553,7 +1556,7 @@ def stumpff2(x):
 
     inds = x < 0
     c2[inds] = (1 - np.cosh(np.sqrt(-x[inds])))/x[inds]
-    return c2
+    return c2[()]
 
 
 def stumpff3(x):
@@ -1573,7 +1576,8 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c3 = np.empty_like(x)
+    x = np.asarray(x)
+    c3 = np.full(x.shape, np.nan, dtype=_float_dtype(x.dtype))
     inds = x > 0
     xsq = np.sqrt(x[inds])
     c3[inds] = (xsq - np.sin(xsq))/(xsq*x[inds])
@@ -1583,7 +1587,7 @@ def stumpff3(x):
     inds = x < 0
     xsq = np.sqrt(-x[inds])
     c3[inds] = (xsq - np.sinh(xsq))/(xsq*x[inds])
-    return c3
+    return c3[()]
 
 
 def stumpff(x):
-- 
2.43.0


From a954c6abdb46030a1445214285a10837a16e8a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 07/20] fix: the period and mean motion setters raised
 TypeError

---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 2520661..f4109a4 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1049,11 +1049,11 @@ class Orbit:
         return functions.orbital_period(self.a, self.G*(self.M0 + self.m))
 
     @period.setter
-    def period(self):
+    def period(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self.a = functions.semi_major_axis(
-            self.period,
+            value,
             self.G*(self.M0 + self.m),
         )
         if self.direct_update:
-- 
2.43.0


From 6010f5578210f989a3fa4c0feeb8c28461dd5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 08/20] fix: calc_eccentric_anomaly replaced the storage of
 orbits that were not selected

---
 pyorb/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f4109a4..af30ea2 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -887,7 +887,7 @@ class Orbit:
         :code:`self._eccentric_anomaly`.
         '''
         if self.type == 'mean':
-            self._eccentric_anomaly = functions.mean_to_eccentric(
+            self._eccentric_anomaly[inds] = functions.mean_to_eccentric(
                 self.anom[inds],
                 self.e[inds],
                 solver_options = self.solver_options,
-- 
2.43.0


From 21d6ccb94b336b3f6ab45fc92052b205ed7ad6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 09/20] fix: changing the anomaly type moved the cartesian
 elements

---
 pyorb/orbit.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index af30ea2..4db0bc9 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -222,12 +222,16 @@ class Orbit:
         if val not in Orbit.ANOMALY:
             raise ValueError(f'Anomaly type "{val}" not recognized')
         if self.__type != val:
+            if self.kepler_read_only:
+                raise AttributeError('Cannot update read only Kepler elements')
             if val == 'true':
-                self.anom = self.true_anomaly
+                anom = self.true_anomaly
             elif val == 'eccentric':
-                self.anom = self.eccentric_anomaly
+                anom = self.eccentric_anomaly
             elif val == 'mean':
-                self.anom = self.mean_anomaly
+                anom = self.mean_anomaly
+            # same position on the orbit, the cartesian elements do not change
+            self._kep[5, :] = anom
             self.__type = val
 
     def propagate(self, dt):
-- 
2.43.0


From b56a1cb8b1cc1ee4bcc6221d449d301b81768ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 10/20] fix: setting equinoctial elements failed for vectors,
 ignored read only and lost elements

---
 pyorb/orbit.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 4db0bc9..689f135 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1038,12 +1038,27 @@ class Orbit:
 
     @equinoctial.setter
     def equinoctial(self, vals):
+        if self.kepler_read_only:
+            raise AttributeError('Cannot update read only Kepler elements')
         elems = functions.equi_to_kep(vals, degrees=self.degrees)
-        tmp_elms = elems[:5, ...]
-        if len(tmp_elms.shape) == 1:
-            tmp_elms.shape = (5, 1)
-        self._kep[:5, ...] = tmp_elms
-        self.mean_anomaly = elems[5, ...]
+        if len(elems.shape) == 1:
+            elems.shape = (6, 1)
+        # the longitude is mean longitude
+        if self.type == 'true':
+            elems[5, :] = functions.mean_to_true(
+                elems[5, :],
+                elems[1, :],
+                solver_options = self.solver_options,
+                degrees = self.degrees,
+            )
+        elif self.type == 'eccentric':
+            elems[5, :] = functions.mean_to_eccentric(
+                elems[5, :],
+                elems[1, :],
+                solver_options = self.solver_options,
+                degrees = self.degrees,
+            )
+        self.kepler = elems
 
     @property
     def period(self):
-- 
2.43.0


From b8fcb60539a610c86d80b97edcf9aa9223a6799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 11/20] fix: copies lost which elements were pending conversion
 and shared the epoch

---
 pyorb/orbit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 689f135..764bb9d 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -181,7 +181,7 @@ class Orbit:
             degrees = self.degrees,
             solver_options = copy.deepcopy(self.solver_options),
             dtype = self.dtype,
-            epoch = self.epoch,
+            epoch = copy.deepcopy(self.epoch),
             type = self.type,
         )
         tmp_orb.auto_update = self.auto_update
@@ -196,6 +196,12 @@ class Orbit:
             tmp_orb._cart.shape = (6, 1)
             tmp_orb._kep.shape = (6, 1)
 
+        tmp_orb._true_anomaly[:] = self._true_anomaly[inds]
+        tmp_orb._eccentric_anomaly[:] = self._eccentric_anomaly[inds]
+        tmp_orb._mean_anomaly[:] = self._mean_anomaly[inds]
+        tmp_orb.__cart_calculated[:] = self.__cart_calculated[inds]
+        tmp_orb.__kep_calculated[:] = self.__kep_calculated[inds]
+
         return tmp_orb
 
     def __len__(self):
-- 
2.43.0


From a029e626f711c4e417007eb64d8d21cf5f20b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 12/20] fix: element changes were lost when conversions were
 pending

---
 pyorb/orbit.py | 121 +++++++++++++++++++++++++++----------------------
 1 file changed, 68 insertions(+), 53 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 764bb9d..f830dc4 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -149,13 +149,13 @@ class Orbit:
         return str_
 
     def _cart_check(self):
-        if self.auto_update and not self.direct_update:
+        if self.auto_update or self.direct_update:
             self.calculate_cartesian(
                 np.logical_not(self.__cart_calculated),
             )
 
     def _kep_check(self):
-        if self.auto_update and not self.direct_update:
+        if self.auto_update or self.direct_update:
             self.calculate_kepler(
                 np.logical_not(self.__kep_calculated),
             )
@@ -386,22 +386,20 @@ class Orbit:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
             self._cart[:, inds] = kwargs['cartesian']
+            self.__cart_calculated[inds] = True
+            self.__kep_calculated[inds] = False
             if self.direct_update:
                 self.calculate_kepler()
-            else:
-                self.__cart_calculated[inds] = True
-                self.__kep_calculated[inds] = False
             return
 
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
             self._kep[:, inds] = kwargs['kepler']
+            self.__kep_calculated[inds] = True
+            self.__cart_calculated[inds] = False
             if self.direct_update:
                 self.calculate_cartesian()
-            else:
-                self.__kep_calculated[inds] = True
-                self.__cart_calculated[inds] = False
             return
 
         for ind, key in enumerate(Orbit.CARTESIAN):
@@ -421,32 +419,37 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
+        if 'm' in kwargs and self.direct_update:
+            raise ValueError('Cannot set "m" and direct update, \
+                set "m" via property and manually call calculate.')
+
+        # finish pending conversions before individual elements are changed
+        if cart_updated:
+            self._cart_check()
+        if kep_updated:
+            self._kep_check()
+
         if 'm' in kwargs:
-            if self.direct_update:
-                raise ValueError('Cannot set "m" and direct update, \
-                    set "m" via property and manually call calculate.')
             self.m[inds] = kwargs['m']
 
         if cart_updated:
             for ind, key in enumerate(Orbit.CARTESIAN):
                 if key in kwargs:
                     self._cart[ind, inds] = kwargs[key]
+            self.__kep_calculated[inds] = False
+            self.__cart_calculated[inds] = True
 
             if self.direct_update:
                 self.calculate_kepler()
-            else:
-                self.__kep_calculated[inds] = False
-                self.__cart_calculated[inds] = True
         if kep_updated:
             for ind, key in enumerate(Orbit.KEPLER):
                 if key in kwargs:
                     self._kep[ind, inds] = kwargs[key]
+            self.__cart_calculated[inds] = False
+            self.__kep_calculated[inds] = True
 
             if self.direct_update:
                 self.calculate_cartesian()
-            else:
-                self.__cart_calculated[inds] = False
-                self.__kep_calculated[inds] = True
 
     def calculate_cartesian(self, inds=slice(None, None, None)):
         '''Calculates Cartesian elements based on Keplerian elements
@@ -464,6 +467,7 @@ class Orbit:
             return
 
         self.__cart_calculated[do_inds] = True
+        self.__kep_calculated[do_inds] = True
         if self.type == 'true':
             kep_tmp = self._kep[:, do_inds]
         else:
@@ -493,6 +497,7 @@ class Orbit:
             return
 
         self.__kep_calculated[do_inds] = True
+        self.__cart_calculated[do_inds] = True
         self._kep[:, do_inds] = functions.cart_to_kep(
             self._cart[:, do_inds],
             mu = self.G*(self.M0 + self.m[do_inds]),
@@ -533,13 +538,13 @@ class Orbit:
     def r(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[:3, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def v(self):
@@ -552,13 +557,13 @@ class Orbit:
     def v(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3:, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def cartesian(self):
@@ -578,12 +583,11 @@ class Orbit:
                 self._cart[:, :] = value[:, :]
         else:
             self._cart[:, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def x(self):
@@ -596,12 +600,13 @@ class Orbit:
     def x(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[0, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def y(self):
@@ -614,12 +619,13 @@ class Orbit:
     def y(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[1, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def z(self):
@@ -632,12 +638,13 @@ class Orbit:
     def z(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[2, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def vx(self):
@@ -650,12 +657,13 @@ class Orbit:
     def vx(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def vy(self):
@@ -668,12 +676,13 @@ class Orbit:
     def vy(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[4, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def vz(self):
@@ -686,12 +695,13 @@ class Orbit:
     def vz(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[5, :] = value
+        self.__kep_calculated[:] = False
+        self.__cart_calculated[:] = True
 
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def kepler(self):
@@ -711,12 +721,11 @@ class Orbit:
                 self._kep[:, :] = value[:, :]
         else:
             self._kep[:, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
-            self.__kep_calculated[:] = True
 
     @property
     def a(self):
@@ -729,12 +738,13 @@ class Orbit:
     def a(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[0, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def e(self):
@@ -747,12 +757,13 @@ class Orbit:
     def e(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[1, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def i(self):
@@ -765,12 +776,13 @@ class Orbit:
     def i(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[2, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def omega(self):
@@ -783,12 +795,13 @@ class Orbit:
     def omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[3, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def Omega(self):
@@ -801,12 +814,13 @@ class Orbit:
     def Omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[4, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def anom(self):
@@ -820,12 +834,13 @@ class Orbit:
     def anom(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[5, :] = value
+        self.__cart_calculated[:] = False
+        self.__kep_calculated[:] = True
 
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def mean_motion(self):
-- 
2.43.0


From 82162d56099a51f8dd997dfee1f588f55354a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 13/20] fix: updating selected orbits recalculated the others

---
 pyorb/orbit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f830dc4..c502f2b 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -389,7 +389,7 @@ class Orbit:
             self.__cart_calculated[inds] = True
             self.__kep_calculated[inds] = False
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             return
 
         if 'kepler' in kwargs:
@@ -399,7 +399,7 @@ class Orbit:
             self.__kep_calculated[inds] = True
             self.__cart_calculated[inds] = False
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             return
 
         for ind, key in enumerate(Orbit.CARTESIAN):
@@ -440,7 +440,7 @@ class Orbit:
             self.__cart_calculated[inds] = True
 
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
         if kep_updated:
             for ind, key in enumerate(Orbit.KEPLER):
                 if key in kwargs:
@@ -449,7 +449,7 @@ class Orbit:
             self.__kep_calculated[inds] = True
 
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
 
     def calculate_cartesian(self, inds=slice(None, None, None)):
         '''Calculates Cartesian elements based on Keplerian elements
-- 
2.43.0


From 243359095f8efb87065c598790414136a0101827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 14/20] fix: a rejected add still appended orbits

---
 pyorb/orbit.py | 74 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index c502f2b..1c66c2a 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -285,6 +285,9 @@ class Orbit:
                 key to update that parameter.
 
         '''
+        # reject invalid elements before anything is changed
+        self._check_update({k: v for k, v in kwargs.items() if k != 'm'})
+
         inds = slice(self.num, self.num + num, None)
 
         self.m = np.append(
@@ -352,6 +355,48 @@ class Orbit:
         self.__cart_calculated = np.full((num,), False, dtype=np.bool_)
         self.__kep_calculated = np.full((num,), False, dtype=np.bool_)
 
+    def _check_update(self, kwargs):
+        '''Raises an exception if the update given by the keyword arguments is
+        not allowed, without changing any orbit. Returns which individual
+        elements are updated, cartesian and kepler.
+        '''
+        if 'cartesian' in kwargs:
+            if self.cartesian_read_only:
+                raise AttributeError('Cannot update read only \
+                    Cartesian elements')
+            return False, False
+
+        if 'kepler' in kwargs:
+            if self.kepler_read_only:
+                raise AttributeError('Cannot update read only Kepler elements')
+            return False, False
+
+        cart_updated = False
+        kep_updated = False
+
+        for key in Orbit.CARTESIAN:
+            if key in kwargs:
+                if self.cartesian_read_only:
+                    raise AttributeError('Cannot update read only \
+                        Cartesian elements')
+                cart_updated = True
+
+        for key in Orbit.KEPLER:
+            if key in kwargs:
+                if self.kepler_read_only:
+                    raise AttributeError('Cannot update read only \
+                        Cartesian elements')
+                if cart_updated:
+                    raise ValueError('Cannot update both cartesian and \
+                        Keplerian elements simultaneously.')
+                kep_updated = True
+
+        if 'm' in kwargs and self.direct_update:
+            raise ValueError('Cannot set "m" and direct update, \
+                set "m" via property and manually call calculate.')
+
+        return cart_updated, kep_updated
+
     def update(self, inds=slice(None, None, None), **kwargs):
         '''Calculates Keplerian elements based on Cartesian elements
 
@@ -378,13 +423,9 @@ class Orbit:
                 called manually depending on which are to remain constant.
         '''
 
-        cart_updated = False
-        kep_updated = False
+        cart_updated, kep_updated = self._check_update(kwargs)
 
         if 'cartesian' in kwargs:
-            if self.cartesian_read_only:
-                raise AttributeError('Cannot update read only \
-                    Cartesian elements')
             self._cart[:, inds] = kwargs['cartesian']
             self.__cart_calculated[inds] = True
             self.__kep_calculated[inds] = False
@@ -393,8 +434,6 @@ class Orbit:
             return
 
         if 'kepler' in kwargs:
-            if self.kepler_read_only:
-                raise AttributeError('Cannot update read only Kepler elements')
             self._kep[:, inds] = kwargs['kepler']
             self.__kep_calculated[inds] = True
             self.__cart_calculated[inds] = False
@@ -402,27 +441,6 @@ class Orbit:
                 self.calculate_cartesian(inds)
             return
 
-        for ind, key in enumerate(Orbit.CARTESIAN):
-            if key in kwargs:
-                if self.cartesian_read_only:
-                    raise AttributeError('Cannot update read only \
-                        Cartesian elements')
-                cart_updated = True
-
-        for ind, key in enumerate(Orbit.KEPLER):
-            if key in kwargs:
-                if self.kepler_read_only:
-                    raise AttributeError('Cannot update read only \
-                        Cartesian elements')
-                if cart_updated:
-                    raise ValueError('Cannot update both cartesian and \
-                        Keplerian elements simultaneously.')
-                kep_updated = True
-
-        if 'm' in kwargs and self.direct_update:
-            raise ValueError('Cannot set "m" and direct update, \
-                set "m" via property and manually call calculate.')
-
         # finish pending conversions before individual elements are changed
         if cart_updated:
             self._cart_check()
-- 
2.43.0


From e330ab963f39a917917f20ee2cd2e7a9c74d64ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 15/20] fix: nested iterations over the same instance ended
 early

---
 pyorb/orbit.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 1c66c2a..5b1b4eb 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -208,15 +208,11 @@ class Orbit:
         return self.num
 
     def __iter__(self):
-        self.__it = 0
-        return self
-
-    def __next__(self):
-        if self.__it < self.num:
-            self.__it += 1
-            return self[self.__it-1]
-        else:
-            raise StopIteration
+        # every iteration has its own position
+        ind = 0
+        while ind < self.num:
+            yield self[ind]
+            ind += 1
 
     @property
     def type(self):
-- 
2.43.0


From 732105e92109dd09045a585e5d4606b0f5e98d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 16/20] fix: periapsis, apoapsis and speed were wrong for
 unbound orbits

---
 pyorb/orbit.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 5b1b4eb..aad0587 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1052,11 +1052,13 @@ class Orbit:
 
     @property
     def apoapsis(self):
-        return (1.0 + self.e)*self.a
+        # unbound orbits have no farthest point
+        return np.where(self.e >= 1, np.inf, (1.0 + self.e)*self.a)
 
     @property
     def periapsis(self):
-        return (1.0 - self.e)*self.a
+        # parabolic orbits are given by their periapsis distance
+        return np.where(self.e == 1, self.a, np.abs(1.0 - self.e)*self.a)
 
     @property
     def mean_longitude(self):
@@ -1138,13 +1140,17 @@ class Orbit:
         '''Orbital speed (from kepler)
         '''
         self._kep_check()
-        return functions.orbital_speed(
-            functions.elliptic_radius(
-                self.eccentric_anomaly,
-                self.a,
-                self.e,
-                degrees=self.degrees,
-            ),
-            self.a,
-            self.G*(self.M0 + self.m),
+        e = self.e
+        mu = self.G*(self.M0 + self.m)
+        q = self.periapsis
+        radius = functions.orbital_distance(
+            np.sqrt(mu*q*(1.0 + e)),
+            mu,
+            e,
+            self.true_anomaly,
+            degrees=self.degrees,
         )
+        with np.errstate(divide='ignore'):
+            # negative for hyperbolic and infinite for parabolic orbits
+            a = q/(1.0 - e)
+        return functions.orbital_speed(radius, a, mu)
-- 
2.43.0


From a4874bf8555ecdac37b68cc1cd6cdb4269ad4ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 17/20] fix: parabolic orbits propagated with the wrong mean
 motion

---
 pyorb/orbit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index aad0587..f6eb6a7 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -865,7 +865,9 @@ class Orbit:
         else:
             norm_ = np.pi*2.0
 
-        return norm_/self.period
+        mean_motion = norm_/self.period
+        # the parabolic mean anomaly is defined by Barker's equation
+        return np.where(self.e == 1, mean_motion/np.sqrt(2.0), mean_motion)
 
     @mean_motion.setter
     def mean_motion(self, value):
@@ -875,6 +877,7 @@ class Orbit:
             norm_ = 360.0
         else:
             norm_ = np.pi*2.0
+        value = np.where(self.e == 1, value*np.sqrt(2.0), value)
         self.period = norm_/value
 
         if self.direct_update:
-- 
2.43.0


From 63f958e8f13ad54d5181150197146241695caf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 18/20] fix: printing an orbit showed elements pending
 conversion

---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f6eb6a7..e7f5df4 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -140,8 +140,8 @@ class Orbit:
                 f'{kkey:<5}: {kval:<.4e}   {ckey:<2}: {cval:<.4e}'
                 for kval, kkey, cval, ckey in
                 zip(
-                    self._kep[:, 0], Orbit.KEPLER,
-                    self._cart[:, 0], Orbit.CARTESIAN
+                    self.kepler[:, 0], Orbit.KEPLER,
+                    self.cartesian[:, 0], Orbit.CARTESIAN
                 )
             ])
         else:
-- 
2.43.0


From 9dbbf3895d3e57ada15013148314bf8da0bd3474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 19/20] fix: kep_equivalent ignored the eccentricity and the
 node of planar orbits

---
 pyorb/kepler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 3bba891..aaa2d27 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -565,13 +565,22 @@ def kep_equivalent(kep1, kep2):
     if not np.isclose(kep1[K_a], kep2[K_a]):
         return False
 
+    if not np.isclose(kep1[K_e], kep2[K_e]):
+        return False
+
+    om1, om2 = kep1[K_om], kep2[K_om]
+    # if inclination is (near) zero, then only the sum of omega and Omega matter
+    if not (kep1[K_i] > i_lim or kep2[K_i] > i_lim):
+        om1 = om1 + kep1[K_OM]
+        om2 = om2 + kep2[K_OM]
+
     # if eccentricity is (near) zero, then only the sum of omega and nu matter
     if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
-        if not np.isclose(kep1[K_om] + kep1[K_nu], kep2[K_om] + kep2[K_nu]):
+        if not np.isclose(om1 + kep1[K_nu], om2 + kep2[K_nu]):
             return False
     else:  # otherwise, they must match up individually
         if (
-            not np.isclose(kep1[K_om], kep2[K_om])
+            not np.isclose(om1, om2)
             or not np.isclose(kep1[K_nu], kep2[K_nu])
         ):
             return False
-- 
2.43.0


From 196fd83211657acc5afc8f1d404c020813372299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:52 +0000
Subject: [PATCH 20/20] fix: one vector given to update, at construction or as
 position or velocity is meant for all orbits

The cartesian and kepler keywords were stored by element instead of by
orbit for six orbits and raised for any other number, unlike the
properties they are documented to be the same as.
---
 pyorb/orbit.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index e7f5df4..f712dfe 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -14,6 +14,15 @@ from . import kepler as functions
 # TODO: make init function more readable without kw args jumble
 
 
+def _as_columns(value, ndim=2):
+    '''One vector given for several orbits is the same for all of them.
+    '''
+    value = np.asarray(value)
+    if value.ndim == 1 and ndim > 1:
+        value = value[:, None]
+    return value
+
+
 class Orbit:
     '''Main encapsulating class for the concept of an orbit.
 
@@ -422,7 +431,8 @@ class Orbit:
         cart_updated, kep_updated = self._check_update(kwargs)
 
         if 'cartesian' in kwargs:
-            self._cart[:, inds] = kwargs['cartesian']
+            self._cart[:, inds] = _as_columns(
+                kwargs['cartesian'], self._cart[:, inds].ndim)
             self.__cart_calculated[inds] = True
             self.__kep_calculated[inds] = False
             if self.direct_update:
@@ -430,7 +440,8 @@ class Orbit:
             return
 
         if 'kepler' in kwargs:
-            self._kep[:, inds] = kwargs['kepler']
+            self._kep[:, inds] = _as_columns(
+                kwargs['kepler'], self._kep[:, inds].ndim)
             self.__kep_calculated[inds] = True
             self.__cart_calculated[inds] = False
             if self.direct_update:
@@ -553,7 +564,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[:3, :] = value
+        self._cart[:3, :] = _as_columns(value)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
@@ -572,7 +583,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[3:, :] = value
+        self._cart[3:, :] = _as_columns(value)
         self.__kep_calculated[:] = False
         self.__cart_calculated[:] = True
 
-- 
2.43.0

