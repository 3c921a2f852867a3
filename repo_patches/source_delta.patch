From ce2cd8a82800b30966cd7b73102de68267d21f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 01/25] fix: kep_to_cart must not modify its input elements

The semi-major axis of hyperbolic orbits had its sign flipped in the
caller's array, and with degrees=True the angles were rewritten.
---
 pyorb/kepler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0e297d2..cc54431 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1733,6 +1733,9 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
 
     x = np.empty(kep.shape, dtype=kep.dtype)
 
+    kep_input = kep
+    kep = kep.copy()
+
     if degrees:
         kep[2:, :] = np.radians(kep[2:, :])
 
@@ -1780,9 +1783,6 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
 
     if input_is_vector:
         x.shape = (6,)
-        kep.shape = (6,)
-
-    if degrees:
-        kep[2:, ...] = np.degrees(kep[2:, ...])
+        kep_input.shape = (6,)
 
     return x
-- 
2.43.0


From a1066f295cc7d12e754d29f5145be78cacf6c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 02/25] fix: do not wrap parabolic and hyperbolic eccentric
 anomalies

They are not periodic: before periapsis they are negative and wrapping
them to [0, 2pi] gave a different point on the orbit.
---
 pyorb/kepler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index cc54431..764881a 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -673,7 +673,8 @@ def true_to_eccentric(nu, e, degrees=False):
         else:
             E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*np.tan(_nu*0.5))
 
-    E = np.mod(E + 2.*np.pi, 2.*np.pi)
+    # Only the elliptic anomaly is periodic
+    E = np.where(e < 1, np.mod(E + 2.*np.pi, 2.*np.pi), E)[()]
 
     if degrees:
         E = np.degrees(E)
-- 
2.43.0


From d4eec1a8f93c109ecbb6b8175bb8614c4a8ff660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 03/25] fix: hyperbolic Kepler guess for negative mean
 anomalies

The logarithm of a negative number gave NaN on the inbound leg.
---
 pyorb/kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 764881a..1d6a263 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1145,7 +1145,7 @@ def _get_hyperbolic_kepler_guess(M, e):
         equation. II,” Celestial Mechanics, vol. 31, pp. 317–328, Nov. 1983,
         doi: 10.1007/BF01844230.
     '''
-    E0 = np.log(2*M/e + 1.8)
+    E0 = np.sign(M)*np.log(2*np.abs(M)/e + 1.8)
     return E0
 
 
-- 
2.43.0


From afc33a5174d26267079b8a7f848314987e24e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 04/25] fix: kep_equivalent ignored the eccentricity and planar
 node angles

Orbits with different eccentricities, or planar orbits with different
longitudes of periapsis, were reported as equivalent.
---
 pyorb/kepler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 1d6a263..75396b0 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -559,14 +559,21 @@ def kep_equivalent(kep1, kep2):
 
     if not np.isclose(kep1[K_a], kep2[K_a]):
         return False
+    if not np.isclose(kep1[K_e], kep2[K_e]):
+        return False
+
+    om1, om2 = kep1[K_om], kep2[K_om]
+    # if inclination is (near) zero, then only the sum of Omega and omega matter
+    if kep1[K_i] <= i_lim and kep2[K_i] <= i_lim:
+        om1, om2 = om1 + kep1[K_OM], om2 + kep2[K_OM]
 
     # if eccentricity is (near) zero, then only the sum of omega and nu matter
     if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
-        if not np.isclose(kep1[K_om] + kep1[K_nu], kep2[K_om] + kep2[K_nu]):
+        if not np.isclose(om1 + kep1[K_nu], om2 + kep2[K_nu]):
             return False
     else:  # otherwise, they must match up individually
         if (
-            not np.isclose(kep1[K_om], kep2[K_om])
+            not np.isclose(om1, om2)
             or not np.isclose(kep1[K_nu], kep2[K_nu])
         ):
             return False
-- 
2.43.0


From 43d42bc6de0c81d79e9d644c82d8f5a27d172e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 05/25] fix: changing the anomaly type moved the orbiting body

The converted anomaly was assigned, and the cartesian elements updated
from it, while the orbit still had the previous anomaly type.
---
 pyorb/orbit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a735a50..699c7dd 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -222,13 +222,16 @@ class Orbit:
         if val not in Orbit.ANOMALY:
             raise ValueError(f'Anomaly type "{val}" not recognized')
         if self.__type != val:
+            if self.kepler_read_only:
+                raise AttributeError('Cannot update read only Kepler elements')
             if val == 'true':
-                self.anom = self.true_anomaly
+                anom = self.true_anomaly
             elif val == 'eccentric':
-                self.anom = self.eccentric_anomaly
+                anom = self.eccentric_anomaly
             elif val == 'mean':
-                self.anom = self.mean_anomaly
+                anom = self.mean_anomaly
             self.__type = val
+            self.anom = anom
 
     def propagate(self, dt):
         '''Propagate all orbits in time by modifying the anomaly of the orbit,
-- 
2.43.0


From e9913b7347b7f308db669b91c594a5461509e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 06/25] fix: the period and mean motion setters always raised
 TypeError

---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 699c7dd..e874e4f 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1050,11 +1050,11 @@ class Orbit:
         return functions.orbital_period(self.a, self.G*(self.M0 + self.m))
 
     @period.setter
-    def period(self):
+    def period(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self.a = functions.semi_major_axis(
-            self.period,
+            value,
             self.G*(self.M0 + self.m),
         )
         if self.direct_update:
-- 
2.43.0


From 9221a5260273c2adfc9a429bfb72bf2954b228f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 07/25] fix: copies and slices lost track of which elements are
 up to date

With direct_update=False a copy recalculated the kepler elements from
outdated cartesian elements and dropped pending changes.
---
 pyorb/orbit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index e874e4f..0b88bce 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -196,6 +196,9 @@ class Orbit:
             tmp_orb._cart.shape = (6, 1)
             tmp_orb._kep.shape = (6, 1)
 
+        tmp_orb.__cart_calculated[:] = self.__cart_calculated[inds]
+        tmp_orb.__kep_calculated[:] = self.__kep_calculated[inds]
+
         return tmp_orb
 
     def __len__(self):
-- 
2.43.0


From 2cd8e6bb4d0bcf4c01021f8985baea013887b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 08/25] fix: equinoctial setter

It bypassed kepler_read_only, failed half way for single orbits whose
anomaly type is not mean, and lost the new elements when the kepler
elements were pending an update.
---
 pyorb/orbit.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 0b88bce..00c72f0 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1038,12 +1038,16 @@ class Orbit:
 
     @equinoctial.setter
     def equinoctial(self, vals):
+        if self.kepler_read_only:
+            raise AttributeError('Cannot update read only Kepler elements')
         elems = functions.equi_to_kep(vals, degrees=self.degrees)
-        tmp_elms = elems[:5, ...]
-        if len(tmp_elms.shape) == 1:
-            tmp_elms.shape = (5, 1)
-        self._kep[:5, ...] = tmp_elms
-        self.mean_anomaly = elems[5, ...]
+        if len(elems.shape) == 1:
+            elems = elems[:, None]
+        elems = np.broadcast_to(elems, self._kep.shape)
+        self._kep[:5, :] = elems[:5, :]
+        if not self.direct_update:
+            self.__kep_calculated[:] = True
+        self.mean_anomaly = elems[5, :]
 
     @property
     def period(self):
-- 
2.43.0


From 1940a747a1fa91e22c5c6c2d69788f70bd0492e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 09/25] fix: calc_eccentric_anomaly with a selection resized
 the stored array

---
 pyorb/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 00c72f0..9f1dd75 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -891,7 +891,7 @@ class Orbit:
         :code:`self._eccentric_anomaly`.
         '''
         if self.type == 'mean':
-            self._eccentric_anomaly = functions.mean_to_eccentric(
+            self._eccentric_anomaly[inds] = functions.mean_to_eccentric(
                 self.anom[inds],
                 self.e[inds],
                 solver_options = self.solver_options,
-- 
2.43.0


From 0f373060b06e6ed72ef9413484d595abf902efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 10/25] fix: do not wrap the mean anomaly of unbound orbits
 when propagating

---
 pyorb/orbit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 9f1dd75..b2185ae 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -244,8 +244,10 @@ class Orbit:
             wrap_ = 360.0
         else:
             wrap_ = 2*np.pi
-        self.mean_anomaly = np.mod(
-            self.mean_anomaly + self.mean_motion*dt, wrap_)
+        mean_anomaly = self.mean_anomaly + self.mean_motion*dt
+        # Only bound orbits are periodic
+        self.mean_anomaly = np.where(
+            self.e < 1, np.mod(mean_anomaly, wrap_), mean_anomaly)
         if self.direct_update:
             self.calculate_cartesian()
 
-- 
2.43.0


From bc4fcfe1fd9c648d211dab18c52c4685140f735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 11/25] fix: speed and periapsis of hyperbolic orbits

The speed was NaN and the periapsis distance negative.
---
 pyorb/orbit.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index b2185ae..3fa2e2b 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1023,7 +1023,7 @@ class Orbit:
 
     @property
     def periapsis(self):
-        return (1.0 - self.e)*self.a
+        return np.where(self.e == 1, 1.0, np.abs(1.0 - self.e))*self.a
 
     @property
     def mean_longitude(self):
@@ -1094,13 +1094,17 @@ class Orbit:
         '''Orbital speed (from kepler)
         '''
         self._kep_check()
+        mu = self.G*(self.M0 + self.m)
+        # In the consistent equations hyperbolas have negative semi-major axis
+        a = np.where(self.e > 1, -self.a, self.a)
         return functions.orbital_speed(
-            functions.elliptic_radius(
-                self.eccentric_anomaly,
-                self.a,
+            functions.orbital_distance(
+                functions.orbit_total_angular_momentum(a, self.e, mu),
+                mu,
                 self.e,
+                self.true_anomaly,
                 degrees=self.degrees,
             ),
-            self.a,
-            self.G*(self.M0 + self.m),
+            a,
+            mu,
         )
-- 
2.43.0


From 2be77f5716c6a1d7a3f4106bbd72dc1202e2d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 12/25] fix: lazy update mode lost element changes

With direct_update=False, setting a single element of a set that was
pending an update either wrote into outdated elements or was overwritten
by the pending update on the next access.
---
 pyorb/orbit.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 3fa2e2b..9370c43 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -417,6 +417,11 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
+        if cart_updated:
+            self._cart_check()
+        if kep_updated:
+            self._kep_check()
+
         if 'm' in kwargs:
             if self.direct_update:
                 raise ValueError('Cannot set "m" and direct update, \
@@ -529,6 +534,7 @@ class Orbit:
     def r(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[:3, :] = value
 
         if self.direct_update:
@@ -548,6 +554,7 @@ class Orbit:
     def v(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3:, :] = value
 
         if self.direct_update:
@@ -592,12 +599,14 @@ class Orbit:
     def x(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[0, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def y(self):
@@ -610,12 +619,14 @@ class Orbit:
     def y(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[1, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def z(self):
@@ -628,12 +639,14 @@ class Orbit:
     def z(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[2, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vx(self):
@@ -646,12 +659,14 @@ class Orbit:
     def vx(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vy(self):
@@ -664,12 +679,14 @@ class Orbit:
     def vy(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[4, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def vz(self):
@@ -682,12 +699,14 @@ class Orbit:
     def vz(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[5, :] = value
 
         if self.direct_update:
             self.calculate_kepler()
         else:
             self.__kep_calculated[:] = False
+            self.__cart_calculated[:] = True
 
     @property
     def kepler(self):
@@ -725,12 +744,14 @@ class Orbit:
     def a(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[0, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def e(self):
@@ -743,12 +764,14 @@ class Orbit:
     def e(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[1, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def i(self):
@@ -761,12 +784,14 @@ class Orbit:
     def i(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[2, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def omega(self):
@@ -779,12 +804,14 @@ class Orbit:
     def omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[3, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def Omega(self):
@@ -797,12 +824,14 @@ class Orbit:
     def Omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[4, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def anom(self):
@@ -816,12 +845,14 @@ class Orbit:
     def anom(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[5, :] = value
 
         if self.direct_update:
             self.calculate_cartesian()
         else:
             self.__cart_calculated[:] = False
+            self.__kep_calculated[:] = True
 
     @property
     def mean_motion(self):
-- 
2.43.0


From 5baf6bc92268e2656cac8625d277ce224be514d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 13/25] fix: results of integer arrays were truncated to
 integers

The conversion functions stored their results in arrays of the input data
type, so integer element or anomaly arrays gave meaningless results.
---
 pyorb/kepler.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 75396b0..3e9255c 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -264,7 +264,7 @@ def kep_to_equi(kep, degrees=False):
         OM = np.radians(OM)
         hi = np.radians(hi)
 
-    elems = np.empty(kep.shape, dtype=kep.dtype)
+    elems = np.empty(kep.shape, dtype=np.result_type(kep, np.float32))
 
     elems[E_a, ...] = kep[K_a, ...]
     elems[E_h, ...] = kep[K_e, ...]*np.sin(om_bar)  # h
@@ -304,7 +304,7 @@ def equi_to_kep(equi, degrees=False):
     '''
 
     _circ = 360.0 if degrees else _2pi
-    kep = np.empty(equi.shape, dtype=equi.dtype)
+    kep = np.empty(equi.shape, dtype=np.result_type(equi, np.float32))
 
     kep[K_a, ...] = equi[E_a, ...]  # a
     kep[K_e, ...] = np.sqrt(equi[E_h, ...] ** 2 + equi[E_k, ...] ** 2)  # e
@@ -387,7 +387,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     ez = np.array([0, 0, 1], dtype=cart.dtype)
 
-    o = np.empty(cart.shape, dtype=cart.dtype)
+    o = np.empty(cart.shape, dtype=np.result_type(cart, np.float32))
 
     r = cart[:3, :]
     v = cart[3:, :]
@@ -660,7 +660,7 @@ def true_to_eccentric(nu, e, degrees=False):
         if _nu.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E = np.empty(_nu.shape, dtype=_nu.dtype)
+        E = np.empty(_nu.shape, dtype=np.result_type(_nu, e, np.float32))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -720,7 +720,7 @@ def eccentric_to_true(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        nu = np.empty(_E.shape, dtype=_E.dtype)
+        nu = np.empty(_E.shape, dtype=np.result_type(_E, e, np.float32))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -779,7 +779,7 @@ def eccentric_to_mean(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        M = np.empty(_E.shape, dtype=_E.dtype)
+        M = np.empty(_E.shape, dtype=np.result_type(_E, e, np.float32))
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -1226,7 +1226,7 @@ def kepler_guess(M, e):
         if M.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E0 = np.empty(M.shape, dtype=M.dtype)
+        E0 = np.empty(M.shape, dtype=np.result_type(M, e, np.float32))
 
         out_it = E0.size
         Mit = np.nditer(M)
@@ -1302,7 +1302,7 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
         if _M.shape != e.shape:
             raise TypeError(f'Input dimensions does not agree \
                 M:{_M.shape} != e:{e.shape}')
-        E = np.empty(_M.shape, dtype=_M.dtype)
+        E = np.empty(_M.shape, dtype=np.result_type(_M, e, np.float32))
         if _M.size == 0:
             return E
 
@@ -1739,10 +1739,10 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
     if not isinstance(mu, np.ndarray):
         mu = np.full((kep.shape[1],), mu, dtype=np.float64)
 
-    x = np.empty(kep.shape, dtype=kep.dtype)
-
     kep_input = kep
-    kep = kep.copy()
+    kep = kep.astype(np.result_type(kep, np.float32))
+
+    x = np.empty(kep.shape, dtype=kep.dtype)
 
     if degrees:
         kep[2:, :] = np.radians(kep[2:, :])
-- 
2.43.0


From ae38665ad70f590f27dd3202bdeaf8202bb7f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 14/25] fix: stumpff functions of plain floats and integer
 arrays

Floats raised TypeError and integer arrays gave truncated values.
---
 pyorb/kepler.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 3e9255c..00ccd3a 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1492,7 +1492,8 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c0 = np.empty_like(x)
+    x = np.asarray(x)
+    c0 = np.empty(x.shape, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
 
@@ -1500,7 +1501,7 @@ def stumpff0(x):
 
     inds = x < 0
     c0[inds] = np.cosh(np.sqrt(-x[inds]))
-    return c0
+    return c0[()]
 
 
 def stumpff1(x):
@@ -1520,7 +1521,8 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c1 = np.empty_like(x)
+    x = np.asarray(x)
+    c1 = np.empty(x.shape, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
 
@@ -1528,7 +1530,7 @@ def stumpff1(x):
 
     inds = x < 0
     c1[inds] = np.sinh(np.sqrt(-x[inds]))/np.sqrt(-x[inds])
-    return c1
+    return c1[()]
 
 
 def stumpff2(x):
@@ -1548,7 +1550,8 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c2 = np.empty_like(x)
+    x = np.asarray(x)
+    c2 = np.empty(x.shape, dtype=np.result_type(x, np.float32))
     inds = x > 0
     c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
 
@@ -1556,7 +1559,7 @@ def stumpff2(x):
 
     inds = x < 0
     c2[inds] = (1 - np.cosh(np.sqrt(-x[inds])))/x[inds]
-    return c2
+    return c2[()]
 
 
 def stumpff3(x):
@@ -1576,7 +1579,8 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c3 = np.empty_like(x)
+    x = np.asarray(x)
+    c3 = np.empty(x.shape, dtype=np.result_type(x, np.float32))
     inds = x > 0
     xsq = np.sqrt(x[inds])
     c3[inds] = (xsq - np.sin(xsq))/(xsq*x[inds])
@@ -1586,7 +1590,7 @@ def stumpff3(x):
     inds = x < 0
     xsq = np.sqrt(-x[inds])
     c3[inds] = (xsq - np.sinh(xsq))/(xsq*x[inds])
-    return c3
+    return c3[()]
 
 
 def stumpff(x):
-- 
2.43.0


From ebf095c112daba20987b2ca97739598fee14e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 15/25] fix: update and add with a single state vector

update(kepler=...) is documented to behave as assigning orb.kepler but
raised on a (6,) vector.
---
 pyorb/orbit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 9370c43..b1ff1fb 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -381,7 +381,10 @@ class Orbit:
             if self.cartesian_read_only:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
-            self._cart[:, inds] = kwargs['cartesian']
+            value = kwargs['cartesian']
+            if np.ndim(value) == 1 and self._cart[:, inds].ndim == 2:
+                value = np.asarray(value)[:, None]
+            self._cart[:, inds] = value
             if self.direct_update:
                 self.calculate_kepler()
             else:
@@ -392,7 +395,10 @@ class Orbit:
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
-            self._kep[:, inds] = kwargs['kepler']
+            value = kwargs['kepler']
+            if np.ndim(value) == 1 and self._kep[:, inds].ndim == 2:
+                value = np.asarray(value)[:, None]
+            self._kep[:, inds] = value
             if self.direct_update:
                 self.calculate_cartesian()
             else:
-- 
2.43.0


From e14511891e0fe298df30d2a0bbe213048a70ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 16/25] fix: a rejected add left empty orbits behind

---
 pyorb/orbit.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index b1ff1fb..5238b65 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -324,11 +324,15 @@ class Orbit:
             axis=0,
         )
 
-        if 'm' in kwargs:
-            self.m[inds] = kwargs['m']
-            del kwargs['m']
-
-        self.update(inds = inds, **kwargs)
+        try:
+            if 'm' in kwargs:
+                self.m[inds] = kwargs['m']
+                del kwargs['m']
+
+            self.update(inds = inds, **kwargs)
+        except Exception:
+            self.delete(inds)
+            raise
 
     def allocate(self, num):
         '''Changes the current allocation of orbits to a fixed number.
-- 
2.43.0


From 37b3fa6e738ea032f48e810c1b2175b8be29a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 17/25] fix: simultaneous iterations over an Orbit interfered
 with each other

The position of the iteration was stored in the orbit itself, so a nested
loop over the same instance ended the outer one.
---
 pyorb/orbit.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 5238b65..ddafcb5 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -205,15 +205,8 @@ class Orbit:
         return self.num
 
     def __iter__(self):
-        self.__it = 0
-        return self
-
-    def __next__(self):
-        if self.__it < self.num:
-            self.__it += 1
-            return self[self.__it-1]
-        else:
-            raise StopIteration
+        for ind in range(self.num):
+            yield self[ind]
 
     @property
     def type(self):
-- 
2.43.0


From 59b06b5c3e0601827f8121bf9f8cf84b5a03892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 18/25] fix: angles of retrograde planar orbits at zero came
 out as 2 pi

Planar retrograde orbits with the periapsis (or, for circular orbits, the
position) exactly along +x gave an angle of 2 pi instead of 0, outside the
range [0, 2 pi) of all other angles.
---
 pyorb/kepler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 00ccd3a..fe7787a 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -489,7 +489,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     # retrograde
     ey_neg = np.logical_and(o[2, :] > np.pi*0.5, eg_il)
-    ey_neg2 = np.logical_and(ey_neg, e[1, :] >= 0.0)
+    ey_neg2 = np.logical_and(ey_neg, e[1, :] > 0.0)
     o[3, ey_neg2] = 2.0*np.pi - o[3, ey_neg2]
 
     # ## TRUE ANOMALY ###
@@ -533,7 +533,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     # if retrograde, its reversed
     tmp_ind_ = np.logical_and(o[2, :] > np.pi*0.5, el_il)
-    tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] >= 0.0)
+    tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] > 0.0)
     o[5, tmp_ind2_] = 2.0*np.pi - o[5, tmp_ind2_]
 
     # # OUTPUT FORMATTING ##
-- 
2.43.0


From d54f0e3a299f0605a9dc903200dfddda5c8d8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 19/25] fix: mean anomaly inversion paired elements in memory
 order instead of logical order

---
 pyorb/kepler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index fe7787a..e234465 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1229,9 +1229,9 @@ def kepler_guess(M, e):
         E0 = np.empty(M.shape, dtype=np.result_type(M, e, np.float32))
 
         out_it = E0.size
-        Mit = np.nditer(M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E0, op_flags=['readwrite'])
+        Mit = np.nditer(M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E0, op_flags=['readwrite'], order='C')
 
         for it in range(out_it):
             Mc = next(Mit)
@@ -1307,9 +1307,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             return E
 
         out_it = E.size
-        Mit = np.nditer(_M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E, op_flags=['readwrite'])
+        Mit = np.nditer(_M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E, op_flags=['readwrite'], order='C')
 
         for it in range(out_it):
             Mc = next(Mit)
-- 
2.43.0


From 08984f40dff8a4d6b48f894f82e6ef6102a7a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 20/25] fix: equi_to_kep gave planar orbits a node of pi when p
 or q was a negative zero

---
 pyorb/kepler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index e234465..832df3d 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -313,7 +313,8 @@ def equi_to_kep(equi, degrees=False):
 
     hi = np.arctan(np.sqrt(equi[E_p, ...] ** 2 + equi[E_q, ...] ** 2))  # i/2, radians
     kep[K_i, ...] = 2 * hi
-    kep[K_OM, ...] = np.arctan2(equi[E_p, ...], equi[E_q, ...])  # Omega, radians
+    # Omega, radians, adding zero turns -0 into 0 so that planar orbits get 0
+    kep[K_OM, ...] = np.arctan2(equi[E_p, ...] + 0.0, equi[E_q, ...] + 0.0)
 
     if degrees:
         om_bar = np.degrees(om_bar)
-- 
2.43.0


From 4a62fb489484a6a243d7c619b11740fd1b81f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 21/25] fix: a conversion that failed left the vector passed to
 it with another shape

---
 pyorb/kepler.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 832df3d..6e061c0 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -378,7 +378,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     if len(cart.shape) < 2:
         input_is_vector = True
         try:
-            cart.shape = (6, 1)
+            cart = cart.reshape(6, 1)
         except ValueError as e:
             print(f'Error {e} while trying to cast vector into single column.')
             print(f'Input array shape: {cart.shape}')
@@ -542,7 +542,6 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
         o[2:, :] = np.degrees(o[2:, :])
 
     if input_is_vector:
-        cart.shape = (6,)
         o.shape = (6,)
 
     return o
@@ -1733,7 +1732,7 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
     if len(kep.shape) < 2:
         input_is_vector = True
         try:
-            kep.shape = (6, 1)
+            kep = kep.reshape(6, 1)
         except ValueError as e:
             print(f'Error {e} while trying to cast vector into single column.')
             print(f'Input array shape: {kep.shape}')
@@ -1744,7 +1743,6 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
     if not isinstance(mu, np.ndarray):
         mu = np.full((kep.shape[1],), mu, dtype=np.float64)
 
-    kep_input = kep
     kep = kep.astype(np.result_type(kep, np.float32))
 
     x = np.empty(kep.shape, dtype=kep.dtype)
@@ -1796,6 +1794,5 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
 
     if input_is_vector:
         x.shape = (6,)
-        kep_input.shape = (6,)
 
     return x
-- 
2.43.0


From ac1716affd7bb2762ba3edcc83a295088d9b495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 22/25] fix: integer overflow in cart_to_kep for states of
 narrow integer type

---
 pyorb/kepler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 6e061c0..81f4436 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -386,9 +386,12 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     else:
         input_is_vector = False
 
+    # integer products (e.g. in the angular momentum) could overflow
+    cart = cart.astype(np.result_type(cart, np.float32))
+
     ez = np.array([0, 0, 1], dtype=cart.dtype)
 
-    o = np.empty(cart.shape, dtype=np.result_type(cart, np.float32))
+    o = np.empty(cart.shape, dtype=cart.dtype)
 
     r = cart[:3, :]
     v = cart[3:, :]
-- 
2.43.0


From 2d7832d3b046c38190ee5fa4832fef38bb3fcfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 23/25] fix: update of selected orbits in direct mode
 recalculated (and re-canonicalised) the other orbits too

---
 pyorb/orbit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index ddafcb5..a2ea924 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -383,7 +383,7 @@ class Orbit:
                 value = np.asarray(value)[:, None]
             self._cart[:, inds] = value
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             else:
                 self.__cart_calculated[inds] = True
                 self.__kep_calculated[inds] = False
@@ -397,7 +397,7 @@ class Orbit:
                 value = np.asarray(value)[:, None]
             self._kep[:, inds] = value
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             else:
                 self.__kep_calculated[inds] = True
                 self.__cart_calculated[inds] = False
@@ -437,7 +437,7 @@ class Orbit:
                     self._cart[ind, inds] = kwargs[key]
 
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             else:
                 self.__kep_calculated[inds] = False
                 self.__cart_calculated[inds] = True
@@ -447,7 +447,7 @@ class Orbit:
                     self._kep[ind, inds] = kwargs[key]
 
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             else:
                 self.__cart_calculated[inds] = False
                 self.__kep_calculated[inds] = True
-- 
2.43.0


From e716786f89f8e926ee5720d938f249d4e18b8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 24/25] fix: instances of the constants class did not share
 their state

Assigning __dict__ went through the class's own __setattr__, which stored it as
a constant named '__dict__', so that every instance kept its own (empty) state.
---
 pyorb/const.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyorb/const.py b/pyorb/const.py
index 2d89094..08a1e84 100644
--- a/pyorb/const.py
+++ b/pyorb/const.py
@@ -20,7 +20,8 @@ class _const:
     _shared_state = {}
 
     def __init__(self):
-        self.__dict__ = self._shared_state
+        # bypass __setattr__, which would store this as a constant
+        object.__setattr__(self, '__dict__', self._shared_state)
 
     def __setattr__(self, name, value):
         if name in self.__dict__:
-- 
2.43.0


From 026e7ad747ebd11aad3b992e990093607cf3bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:16 +0000
Subject: [PATCH 25/25] fix: kepler_guess of empty arrays raised ValueError

---
 pyorb/kepler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 81f4436..bbf9733 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1230,6 +1230,8 @@ def kepler_guess(M, e):
             raise TypeError('Input dimensions does not agree')
 
         E0 = np.empty(M.shape, dtype=np.result_type(M, e, np.float32))
+        if M.size == 0:
+            return E0
 
         out_it = E0.size
         Mit = np.nditer(M, order='C')
-- 
2.43.0

