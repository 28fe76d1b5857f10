From 6d5b4cc42411fedf22587245702c0fdfd9f1a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 01/22] fix: wrap() reduces angles modulo 2*pi

---
 pyqlaw/_transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_transformations.py b/pyqlaw/_transformations.py
index 5bb72df..42c1bf8 100644
--- a/pyqlaw/_transformations.py
+++ b/pyqlaw/_transformations.py
@@ -26,4 +26,4 @@ def rotmat3(phi):
 
 def wrap(alpha):
 	"""Wrap angle to be between -pi and pi"""
-	return (alpha + np.pi) % 2.0 * np.pi - np.pi
\ No newline at end of file
+	return (alpha + np.pi) % (2.0 * np.pi) - np.pi
\ No newline at end of file
-- 
2.43.0


From adc01c9d155b61530f3a874657a8125167bf8c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 02/22] fix: J2 acceleration uses the normalised polar
 coordinate z/r

---
 pyqlaw/_perturbations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 2ead376..33c617d 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -44,9 +44,9 @@ def perturbation_J2(rECI, T_ECI2PA, mu, J2, Re):
     coeff = -3*mu*J2*Re**2/(2*r**5)
     rPA = T_ECI2PA @ rECI
     a_J2_PA = coeff * np.array([
-        (1 - 5*rPA[2]**2) * rPA[0],
-        (1 - 5*rPA[2]**2) * rPA[1],
-        (3 - 5*rPA[2]**2) * rPA[2]
+        (1 - 5*(rPA[2]/r)**2) * rPA[0],
+        (1 - 5*(rPA[2]/r)**2) * rPA[1],
+        (3 - 5*(rPA[2]/r)**2) * rPA[2]
     ])
     return T_ECI2PA.T @ a_J2_PA
 
-- 
2.43.0


From e58f49adc311e1b36dc17f295ceed0b58760298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 03/22] fix: rkf45 stages scale by the step once (k_i already
 carry h)

---
 pyqlaw/_integrate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 81d41ae..1abb7f8 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -42,11 +42,11 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
         (np.array); state-vector at time t+h
     """
     k1 = h * rhs(t, y, p)
-    k2 = h * rhs(t + 1/4 * h,   y + 1/4*h * k1, p)
-    k3 = h * rhs(t + 3/8 * h,   y + 3/32*h*k1 + 9/32*h*k2, p)
-    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*h*k1 - 7200/2197*h*k2 + 7296/2197*h*k3, p)
-    k5 = h * rhs(t + h,         y + 439/216*h*k1 - 8*h*k2 + 3680/513*h*k3 - 845/4104*h*k4, p)
-    k6 = h * rhs(t + 1/2*h,     y - 8/27*h*k1 + 2*h*k2 - 3544/2565*h*k3 + 1859/4104*h*k4 - 11/40*h*k5, p)
+    k2 = h * rhs(t + 1/4 * h,   y + 1/4*k1, p)
+    k3 = h * rhs(t + 3/8 * h,   y + 3/32*k1 + 9/32*k2, p)
+    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)
+    k5 = h * rhs(t + h,         y + 439/216*k1 - 8*k2 + 3680/513*k3 - 845/4104*k4, p)
+    k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
     y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4101*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
     h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
-- 
2.43.0


From 1dfd881d846f436e4fcbfd98094954b733481c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 04/22] fix: rkf45 4th-order weight of k4 is 2197/4104

---
 pyqlaw/_integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 1abb7f8..60c2b69 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -47,7 +47,7 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
     k4 = h * rhs(t + 12/13 * h, y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)
     k5 = h * rhs(t + h,         y + 439/216*k1 - 8*k2 + 3680/513*k3 - 845/4104*k4, p)
     k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
-    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4101*k4 - 1/5*k5
+    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
     h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From db2f053f330369385ab24dc3dc910044c9b47228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 05/22] fix: each solve() reports its own outcome, not that of
 an earlier call

---
 pyqlaw/_qlaw.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f3e9539..68de4b8 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -338,6 +338,10 @@ class QLaw:
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
 
+        # reset outcome of any previous call
+        self.converge = False
+        self.exitcode = 0
+
         # initialize values for propagation
         t_iter = 0.0
         oe_iter = self.oe0
-- 
2.43.0


From efd40b211d7d1957a60f7a8640dd7fbd201c5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 06/22] fix: elements_safety returns a copy instead of
 overwriting its input

---
 pyqlaw/_convergence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_convergence.py b/pyqlaw/_convergence.py
index bb013c8..faa7aa7 100644
--- a/pyqlaw/_convergence.py
+++ b/pyqlaw/_convergence.py
@@ -58,7 +58,7 @@ def elements_safety(oe, oe_min, oe_max):
     Returns:
         (np.array): "cleaned" osculating elements
     """
-    oe_clean = oe
+    oe_clean = oe.copy()
     for idx in range(5):
         oe_clean[idx] = min(max(oe_min[idx], oe[idx]), oe_max[idx])
     return oe_clean
\ No newline at end of file
-- 
2.43.0


From 6671a1006b27d31fd673ffc74366c82a4798d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 07/22] fix: SMA-MEE true anomaly uses the quadrant of (f,g)

---
 pyqlaw/_eom.py      | 2 +-
 pyqlaw/_symbolic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_eom.py b/pyqlaw/_eom.py
index 443f548..3dec612 100644
--- a/pyqlaw/_eom.py
+++ b/pyqlaw/_eom.py
@@ -84,7 +84,7 @@ def eom_mee_with_a_gauss(t, state, param):
     # compute additional parameters
     ecc = np.sqrt(f**2 + g**2)
     ang_mom = np.sqrt(sma*mu*(1-ecc**2))
-    ta = l - np.arctan(g/f)
+    ta = l - np.arctan2(g,f)
     r = ang_mom**2/(mu*(1+ecc*np.cos(ta)))
     p = sma*(1 - ecc**2)
 
diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 944bdbe..b64f5ac 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -222,7 +222,7 @@ def symbolic_qlaw_mee_with_a(cse = True):
         e = sym.sqrt(f**2 + g**2)
         ang_mom = sym.sqrt(a*mu*(1-e**2))
         rp = a*(1 - e)
-        ta = l - sym.atan(g/f)
+        ta = l - sym.atan2(g,f)
         r = ang_mom**2/(mu*(1+e*sym.cos(ta)))
         s_squared = 1 + h**2 + k**2
 
-- 
2.43.0


From f527088e3e07e19f0bc0044415a32314ce08528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 08/22] fix: reject invalid eta_r as is done for eta_a

---
 pyqlaw/_qlaw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 68de4b8..0131a1f 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -337,6 +337,8 @@ class QLaw:
             pass
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
+        if not (isinstance(eta_r, float) or callable(eta_r)):
+            raise ValueError("Invalid type for `eta_r`. Expected float or callable function.")
 
         # reset outcome of any previous call
         self.converge = False
-- 
2.43.0


From 41401dcc24a5369bf0b50dd90fe5a478038dd526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 09/22] fix: define control angles when the first step is a
 coast

---
 pyqlaw/_qlaw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 0131a1f..bcd4fcd 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -372,6 +372,7 @@ class QLaw:
         t_last_ON  = 0.0
         t_last_OFF = 0.0
         charging = False
+        alpha, beta = 0.0, 0.0
 
         # iterate until nmax
         idx = 0
-- 
2.43.0


From 6931468e17dd32434c8b0e88f8c895399d56cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 10/22] fix: save_to_dict exports MEE states for Keplerian
 problems

---
 pyqlaw/_qlaw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index bcd4fcd..f105ff5 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -22,6 +22,7 @@ from ._convergence import (
 from ._elements import (
     kep2sv,
     mee_with_a2sv,
+    kep2mee,
     get_orbit_coordinates, 
     mee_with_a2mee,
     mee2mee_with_a,
@@ -738,12 +739,13 @@ class QLaw:
         Args:
             filepath (str): filepath to json filename to save the dictionary
         """
+        to_mee = kep2mee if self.elements_type == "keplerian" else mee_with_a2mee
         initial_guess = {
             "t0": 0.0,
             "tf": self.times[-1],
             "times": self.times,
             "canonical_units": canonical_units,
-            "states": [list(mee_with_a2mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
+            "states": [list(to_mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
         }
         _controls = copy.deepcopy(self.controls)
         _controls.append([0,0,0])   # final step to match time-steps
-- 
2.43.0


From a60ce0eb254d109fcb6ea6f9cf8613e159c082f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 11/22] fix: mee2kep keeps the periapsis direction of
 equatorial orbits

---
 pyqlaw/_elements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 7351e6a..9ee2318 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -264,7 +264,10 @@ def mee2kep(oe_mee):
     e = np.sqrt(f**2 + g**2)
     i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)
     raan = np.arctan2(k,h)
-    om = np.arctan2(g*h-f*k, f*h+g*k)
+    if h == 0.0 and k == 0.0:
+        om = np.arctan2(g, f)       # equatorial, raan = 0
+    else:
+        om = np.arctan2(g*h-f*k, f*h+g*k)
     ta = l - raan - om
     return np.array([a,e,i,raan,om,ta])
 
-- 
2.43.0


From 89afe3de849a8f7422fbb26dad9518eab9d0e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 12/22] fix: keep arccos arguments within [-1,1] against
 round-off

---
 pyqlaw/_elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 9ee2318..6fb19f4 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -23,7 +23,7 @@ def get_inclination(state):
     # angular momentum
     h = np.cross(r,v)
     # inclination
-    inc = np.arccos(h[2] / la.norm(h))
+    inc = np.arccos(max(-1.0, min(1.0, h[2] / la.norm(h))))
     return inc
 
 
@@ -97,7 +97,7 @@ def get_omega(state, mu):
 
     # compute argument of periapsis
     if np.abs(la.norm(ndir)*la.norm(ecc)) >= 1e-12:
-        omega = np.arccos( np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)) )
+        omega = np.arccos(max(-1.0, min(1.0, np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)))))
         if ecc[2] < 0:
             omega = 2*np.pi - omega
     else:
-- 
2.43.0


From 202b3b7df6ce261583ba35e1040d07abca09ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 13/22] fix: effectivity extremes are of |Qdot|, also when
 propagating backward

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f105ff5..11e60a3 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -650,7 +650,7 @@ class QLaw:
                 )
             )
         # we return max and min since qdot is defined to be positive
-        return max(qdot_list), min(qdot_list)
+        return max(qdot_list, key=abs), min(qdot_list, key=abs)
     
 
     def interpolate_states(self, kind="quadratic"):
-- 
2.43.0


From 8a6d3c41be087aa8c87dec10edf5b65104e5db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 14/22] fix: Sundman step follows the sign of t_step

---
 pyqlaw/_qlaw.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 11e60a3..3b47de6 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -398,10 +398,7 @@ class QLaw:
                 # compute mean anomaly
                 M0 = E0 - ecc_iter*np.sin(E0)
                 M1 = E1 - ecc_iter*np.sin(E1)
-                if M1 > M0:
-                    t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
-                else:
-                    t_step_local = (M1/(2*np.pi) + 1 - M0/(2*np.pi)) * period
+                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
             else:
                 t_step_local = self.t_step
 
-- 
2.43.0


From cae01f5cdec2a81b73f98609fefef537f23a254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 15/22] fix: Keplerian Q scales with |a - aT| for any exponent
 n_petro

---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index b64f5ac..46f46d1 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -81,7 +81,7 @@ def symbolic_qlaw_keplerian(cse = True):
         # compute periapsis radius constraint P
         p_rp = sym.exp(k_petro*(1.0 - rp/rpmin))
         # compute scaling for each element Soe
-        soe = [(1 + ((a-aT)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
+        soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
         # compute quotient Q
         #sum_term = 0
         #for idx in range(5):
-- 
2.43.0


From d21e66bdbfeef28f63870a4193be49fadc6c8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 16/22] fix: SpicePerturbations accepts third_bodies_names=None

---
 pyqlaw/_perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 33c617d..e033bdf 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -174,7 +174,7 @@ class SpicePerturbations:
 
         # third-body perturbation in ECI
         et = self.et_ref + t * self.TU     # time to query spice ephemeris
-        for mu3,ID in zip(self.third_bodies_gms, self.third_bodies_names):
+        for mu3,ID in zip(self.third_bodies_gms or [], self.third_bodies_names or []):
             pos3_km,_ = spice.spkpos(ID, et, self.frame_qlaw, "NONE", self.obs_id)
             acc_ptrb_ECI += perturbation_third_body_battin(rv_ECI[0:3], pos3_km/self.LU, mu3)
 
-- 
2.43.0


From a0eebe0781bd2ae318df9bfd599d125a2b631bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 17/22] fix: duty cycle is honoured when propagating backward

---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 3b47de6..6204727 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -403,11 +403,11 @@ class QLaw:
                 t_step_local = self.t_step
 
             # evaluate duty cycle
-            if ((t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
+            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
                 duty = False            # turn off duty cycle
                 t_last_OFF = t_iter     # latest time when we turn off
             
-            if ((t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
+            if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
                 duty = True             # turn on duty cycle
                 t_last_ON = t_iter      # latest time when we turn on
 
-- 
2.43.0


From 0250b61ea54ce382d41c31fc4dee59f012f0a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 18/22] fix: battery is updated with the step taken when using
 rkf45

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 6204727..1d5998d 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -549,7 +549,7 @@ class QLaw:
                 if throttle == 1:
                     mass_iter -= self.mdot*t_step_local  # update mass
                 oe_iter = oe_next
-                t_step_local = max(self.step_min, min(self.step_max,h_next))
+                h_next = max(self.step_min, min(self.step_max,h_next))  # proposal only, step taken is t_step_local
             else:
                 raise ValueError("integrator name invalid!")
             
-- 
2.43.0


From de52654a123656c0e1488d941d4f6cb5132487a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 19/22] fix: engine-on step is shortened to the energy left
 also while partially recharged

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 1d5998d..80c16c8 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -419,7 +419,7 @@ class QLaw:
             
             # overwrite time-step to time until we hit bottom of battery capacity
             elif (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]) and\
-                (charging is False):
+                (duty is True) and ((charging is False) or (self.require_full_recharge is False)):
                 t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]
 
             # check if battery is full
-- 
2.43.0


From 0aec87f49e74dfd7d98156eceeec133cfd46a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 20/22] fix: periapsis overlay of element histories uses the
 eccentricity for SMA-MEE states

---
 pyqlaw/_plot_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_plot_methods.py b/pyqlaw/_plot_methods.py
index 42705b6..808f1ad 100644
--- a/pyqlaw/_plot_methods.py
+++ b/pyqlaw/_plot_methods.py
@@ -73,7 +73,11 @@ def plot_elements_history(
 
     # overlay periapsis
     if plot_periapsis:
-        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - oes[1,:]))
+        if to_keplerian == True or self.elements_type=="keplerian":
+            eccs = oes[1,:]
+        else:
+            eccs = np.sqrt(oes[1,:]**2 + oes[2,:]**2)
+        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - eccs))
 
     # plot mass or TA
     if plot_mass:
-- 
2.43.0


From 614a34db117a3bf3bc88f9669f7d56aa238e03ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:04 +0000
Subject: [PATCH 21/22] fix: rkf45 divides by zero when both embedded solutions
 coincide

Compiled code raises ZeroDivisionError, so coasting with the embedded
integrator stopped whenever the difference of both solutions was zero
(e.g. on a circular orbit). Keep the step size in this case.
---
 pyqlaw/_integrate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 60c2b69..c29ffd7 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -49,5 +49,7 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
     k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
     y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
-    h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
+    err = np.linalg.norm(z_next - y_next)
+    # division by zero raises in compiled code: keep the step if both solutions coincide
+    h_next = h*0.84*(tol/err)**(1/4) if err != 0.0 else h
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From 2e94c4cafb772fc73e3957ce85ad80e4b473afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:04 +0000
Subject: [PATCH 22/22] fix: thrust angles of a purely out-of-plane direction
 divide by zero

Compiled code raises ZeroDivisionError; use arctan2 for the out-of-plane angle.
---
 pyqlaw/_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_lyapunov.py b/pyqlaw/_lyapunov.py
index 6df8dd5..e9cc231 100644
--- a/pyqlaw/_lyapunov.py
+++ b/pyqlaw/_lyapunov.py
@@ -12,7 +12,7 @@ def _u_to_thrust_angles(u_float):
     u_float_norm = np.sqrt( u_float[0]**2 + u_float[1]**2 + u_float[2]**2 )
     u = u_float/u_float_norm
     alpha = np.arctan2(-u[0],-u[1])
-    beta = np.arctan(-u[2]/np.sqrt(u[0]**2 + u[1]**2))
+    beta = np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))
     return u, alpha, beta
 
 
-- 
2.43.0

