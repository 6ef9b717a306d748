From f692ba142845899f1ea1cb9ed21f2fa78c46dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 1/8] fix: write AeroDyn airfoil files line by line

Airfoil.writeToAerodynFile wrote the whole file without a single newline, so
that the result could not be read back (by initFromAerodynFile or AeroDyn).
---
 ccblade/airfoilprep.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index cfad700..7446960 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -776,32 +776,32 @@ class Airfoil(object):
 
         f = open(filename, "w")
 
-        f.write("AeroDyn airfoil file.")
-        f.write("Compatible with AeroDyn v13.0.")
-        f.write("Generated by airfoilprep.py")
-        f.write("{0:<10d}\t\t{1:40}".format(len(af.polars), "Number of airfoil tables in this file"))
+        f.write("AeroDyn airfoil file.\n")
+        f.write("Compatible with AeroDyn v13.0.\n")
+        f.write("Generated by airfoilprep.py\n")
+        f.write("{0:<10d}\t\t{1:40}\n".format(len(af.polars), "Number of airfoil tables in this file"))
         for p in af.polars:
-            f.write("{0:<10f}\t{1:40}".format(p.Re / 1e6, "Reynolds number in millions."))
+            f.write("{0:<10f}\t{1:40}\n".format(p.Re / 1e6, "Reynolds number in millions."))
             param = p.unsteadyparam()
-            f.write("{0:<10f}\t{1:40}".format(param[0], "Control setting"))
-            f.write("{0:<10f}\t{1:40}".format(param[1], "Stall angle (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[0], "Control setting"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[1], "Stall angle (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[4], "Cn at stall value for positive angle of attack for linear Cn curve"
                 )
             )
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[5], "Cn at stall value for negative angle of attack for linear Cn curve"
                 )
             )
-            f.write("{0:<10f}\t{1:40}".format(param[6], "Angle of attack for minimum CD (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[7], "Minimum CD value"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[6], "Angle of attack for minimum CD (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[7], "Minimum CD value"))
             for a, cl, cd, cm in zip(p.alpha, p.cl, p.cd, p.cm):
-                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}".format(a, cl, cd, cm))
-            f.write("EOT")
+                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}\n".format(a, cl, cd, cm))
+            f.write("EOT\n")
         f.close()
 
     def createDataGrid(self):
-- 
2.43.0


From d79bfe7fe567cacdde7d2dbcaef4b5048ef87879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 2/8] fix: only the missing Reynolds derivative falls back to
 zero

CCAirfoil.derivatives used a bare except, which also turned interrupts, memory
errors and anything else into zero gradients.
---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 6086cc2..41684cc 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -221,7 +221,7 @@ class CCAirfoil(object):
             try:
                 dcl_dRe = bisplev(alpha, Re, tck_cl, dx=0, dy=1)
                 dcd_dRe = bisplev(alpha, Re, tck_cd, dx=0, dy=1)
-            except:
+            except ValueError:  # spline is only linear in Re
                 dcl_dRe = 0.0
                 dcd_dRe = 0.0
         return dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe
-- 
2.43.0


From 310ae04eac62a0d1b981a88871f4ea3affcc8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 3/8] fix: contain NaN sections of a parked rotor too

The message printed for a section with NaN loads used the search limits, which
do not exist when the rotor is not turning, so that the analysis failed with an
UnboundLocalError.
---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 41684cc..13ebead 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -1025,7 +1025,7 @@ class CCBlade(object):
             ) = self.__loads(phi_star, rotating, *args)
 
             if np.isnan(Np[i]):
-                print(f"NaNs at {i}/{n}: {phi_lower} {phi_star} {phi_upper}")
+                print(f"NaNs at {i}/{n}: {phi_star}")
                 a[i] = 0.0
                 ap[i] = 0.0
                 Np[i] = 0.0
-- 
2.43.0


From a1b34081fd1f2937983594fac9612f259fae6fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 4/8] fix: do not take an airfoil model's ValueError for a root
 finding problem

distributedAeroLoads turned any ValueError raised while the root finder was
evaluating a section, e.g. by a user supplied airfoil object, into a warning
and made up loads.
---
 ccblade/ccblade.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 13ebead..875260c 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -959,6 +959,16 @@ class CCBlade(object):
             errf = self.__errorFunction
         rotating = Omega != 0.0
 
+        # errors raised while evaluating a section must not be taken for root finding problems
+        model_errors = []
+
+        def residual(*resid_args):
+            try:
+                return errf(*resid_args)
+            except ValueError as err:
+                model_errors.append(err)
+                raise
+
         # ---------------- loop across blade ------------------
         for i in range(n):
 
@@ -991,9 +1001,12 @@ class CCBlade(object):
                         phi_upper = np.pi - epsilon
 
                 try:
-                    phi_star = brentq(errf, phi_lower, phi_upper, args=args)
+                    phi_star = brentq(residual, phi_lower, phi_upper, args=args)
+
+                except ValueError as err:
 
-                except ValueError:
+                    if err in model_errors:
+                        raise
 
                     warnings.warn("error.  check input values.")
                     phi_star = 0.0
-- 
2.43.0


From 00f039211c13a6c1f03964767358d00852d89fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 5/8] fix: keep extrapolation scratch values off the polar

Polar.extrapolate stored cdmax, A, B and cm0 on the polar it was called on, so
that extrapolating one polar in two threads with different settings mixed
them up.
---
 ccblade/airfoilprep.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 7446960..f9f3854 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -222,7 +222,7 @@ class Polar(object):
         # estimate CD max
         if AR is not None:
             cdmax = 1.11 + 0.018 * AR
-        self.cdmax = max(max(self.cd), cdmax)
+        cdmax = max(max(self.cd), cdmax)
 
         # extract matching info from ends
         alpha_high = np.radians(self.alpha[-1])
@@ -244,23 +244,23 @@ class Polar(object):
         # parameters used in model
         sa = np.sin(alpha_high)
         ca = np.cos(alpha_high)
-        self.A = (cl_high - self.cdmax * sa * ca) * sa / ca ** 2
-        self.B = (cd_high - self.cdmax * sa * sa) / ca
+        A = (cl_high - cdmax * sa * ca) * sa / ca ** 2
+        B = (cd_high - cdmax * sa * sa) / ca
 
         # alpha_high <-> 90
         alpha1 = np.linspace(alpha_high, np.pi / 2, nalpha)
         alpha1 = alpha1[1:]  # remove first element so as not to duplicate when concatenating
-        cl1, cd1 = self.__Viterna(alpha1, 1.0)
+        cl1, cd1 = self.__Viterna(alpha1, 1.0, cdmax, A, B)
 
         # 90 <-> 180-alpha_high
         alpha2 = np.linspace(np.pi / 2, np.pi - alpha_high, nalpha)
         alpha2 = alpha2[1:]
-        cl2, cd2 = self.__Viterna(np.pi - alpha2, -cl_adj)
+        cl2, cd2 = self.__Viterna(np.pi - alpha2, -cl_adj, cdmax, A, B)
 
         # 180-alpha_high <-> 180
         alpha3 = np.linspace(np.pi - alpha_high, np.pi, nalpha)
         alpha3 = alpha3[1:]
-        cl3, cd3 = self.__Viterna(np.pi - alpha3, 1.0)
+        cl3, cd3 = self.__Viterna(np.pi - alpha3, 1.0, cdmax, A, B)
         cl3 = (alpha3 - np.pi) / alpha_high * cl_high * cl_adj  # override with linear variation
 
         if alpha_low <= -alpha_high:
@@ -280,16 +280,16 @@ class Polar(object):
         # -90 <-> -alpha_high
         alpha5 = np.linspace(-np.pi / 2, alpha5max, nalpha)
         alpha5 = alpha5[1:]
-        cl5, cd5 = self.__Viterna(-alpha5, -cl_adj)
+        cl5, cd5 = self.__Viterna(-alpha5, -cl_adj, cdmax, A, B)
 
         # -180+alpha_high <-> -90
         alpha6 = np.linspace(-np.pi + alpha_high, -np.pi / 2, nalpha)
         alpha6 = alpha6[1:]
-        cl6, cd6 = self.__Viterna(alpha6 + np.pi, cl_adj)
+        cl6, cd6 = self.__Viterna(alpha6 + np.pi, cl_adj, cdmax, A, B)
 
         # -180 <-> -180 + alpha_high
         alpha7 = np.linspace(-np.pi, -np.pi + alpha_high, nalpha)
-        cl7, cd7 = self.__Viterna(alpha7 + np.pi, 1.0)
+        cl7, cd7 = self.__Viterna(alpha7 + np.pi, 1.0, cdmax, A, B)
         cl7 = (alpha7 + np.pi) / alpha_high * cl_high * cl_adj  # linear variation
 
         alpha = np.concatenate((alpha7, alpha6, alpha5, alpha4, np.radians(self.alpha), alpha1, alpha2, alpha3))
@@ -311,13 +311,13 @@ class Polar(object):
         cm2 = np.zeros(len(alpha_cm2))
         cm_ext = np.concatenate((cm1, self.cm, cm2))
         if np.count_nonzero(self.cm) > 0:
-            cmCoef = self.__CMCoeff(cl_high, cd_high, cm_high)  # get cm coefficient
+            cmCoef, cm0 = self.__CMCoeff(cl_high, cd_high, cm_high)  # get cm coefficient
             cl_cm = np.interp(alpha_cm, np.degrees(alpha), cl)  # get cl for applicable alphas
             cd_cm = np.interp(alpha_cm, np.degrees(alpha), cd)  # get cd for applicable alphas
             alpha_low_deg = self.alpha[0]
             alpha_high_deg = self.alpha[-1]
             for i in range(len(alpha_cm)):
-                cm_new = self.__getCM(i, cmCoef, alpha_cm, cl_cm, cd_cm, alpha_low_deg, alpha_high_deg)
+                cm_new = self.__getCM(i, cmCoef, cm0, alpha_cm, cl_cm, cd_cm, alpha_low_deg, alpha_high_deg)
                 if cm_new is None:
                     pass  # For when it reaches the range of cm's that the user provides
                 else:
@@ -325,15 +325,15 @@ class Polar(object):
         cm = np.interp(np.degrees(alpha), alpha_cm, cm_ext)
         return type(self)(self.Re, np.degrees(alpha), cl, cd, cm)
 
-    def __Viterna(self, alpha, cl_adj):
+    def __Viterna(self, alpha, cl_adj, cdmax, A, B):
         """private method to perform Viterna extrapolation"""
 
         alpha = np.maximum(alpha, 0.0001)  # prevent divide by zero
 
-        cl = self.cdmax / 2 * np.sin(2 * alpha) + self.A * np.cos(alpha) ** 2 / np.sin(alpha)
+        cl = cdmax / 2 * np.sin(2 * alpha) + A * np.cos(alpha) ** 2 / np.sin(alpha)
         cl = cl * cl_adj
 
-        cd = self.cdmax * np.sin(alpha) ** 2 + self.B * np.cos(alpha)
+        cd = cdmax * np.sin(alpha) ** 2 + B * np.cos(alpha)
 
         return cl, cd
 
@@ -352,13 +352,12 @@ class Polar(object):
         if not found_zero_lift:
             p = -self.cl[0] / (self.cl[1] - self.cl[0])
             cm0 = self.cm[0] + p * (self.cm[1] - self.cm[0])
-        self.cm0 = cm0
         alpha_high = np.radians(self.alpha[-1])
         XM = (-cm_high + cm0) / (cl_high * np.cos(alpha_high) + cd_high * np.sin(alpha_high))
         cmCoef = (XM - 0.25) / np.tan((alpha_high - np.pi / 2))
-        return cmCoef
+        return cmCoef, cm0
 
-    def __getCM(self, i, cmCoef, alpha, cl_ext, cd_ext, alpha_low_deg, alpha_high_deg):
+    def __getCM(self, i, cmCoef, cm0, alpha, cl_ext, cd_ext, alpha_low_deg, alpha_high_deg):
         """private method to extrapolate Cm"""
 
         cm_new = 0
@@ -366,15 +365,15 @@ class Polar(object):
             return
         if alpha[i] > -165 and alpha[i] < 165:
             if abs(alpha[i]) < 0.01:
-                cm_new = self.cm0
+                cm_new = cm0
             else:
                 if alpha[i] > 0:
                     x = cmCoef * np.tan(np.radians(alpha[i]) - np.pi / 2) + 0.25
-                    cm_new = self.cm0 - x * (cl_ext[i] * np.cos(np.radians(alpha[i])) + cd_ext[i] * np.sin(np.radians(alpha[i])))
+                    cm_new = cm0 - x * (cl_ext[i] * np.cos(np.radians(alpha[i])) + cd_ext[i] * np.sin(np.radians(alpha[i])))
                 else:
                     x = cmCoef * np.tan(-np.radians(alpha[i]) - np.pi / 2) + 0.25
                     cm_new = -(
-                        self.cm0 - x * (-cl_ext[i] * np.cos(-np.radians(alpha[i])) + cd_ext[i] * np.sin(-np.radians(alpha[i])))
+                        cm0 - x * (-cl_ext[i] * np.cos(-np.radians(alpha[i])) + cd_ext[i] * np.sin(-np.radians(alpha[i])))
                     )
         else:
             if alpha[i] == 165:
-- 
2.43.0


From 9b2b56c7b0bde48f11b2c4bc1c5510616a7aa711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 6/8] fix: do not use the coordinates of a failed XFoil run

af_flap_coords ignored the exit status of XFoil.  When XFoil died while it was
saving the airfoil, the part of the coordinates it had written was installed on
the airfoil without any error.
---
 ccblade/ccblade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 875260c..36e6e6e 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -435,7 +435,9 @@ class CCAirfoil(object):
         fid.close()
 
         # Run the XFoil calling command
-        os.system(xfoil_path + " < " + xfoilFlnm + " > " + NUL_fname)  # <<< runs XFoil !
+        status = os.system(xfoil_path + " < " + xfoilFlnm + " > " + NUL_fname)  # <<< runs XFoil !
+        if status != 0:
+            raise RuntimeError("XFoil failed (status {}), no coordinates for {} with flap {}".format(status, AFName, df))
 
         # Load in saved airfoil coordinates (with flap) from xfoil and save to instance variables
         flap_coords = np.loadtxt(saveFlnmAF)
-- 
2.43.0


From ae1b745f482d83abd963e3b4a586e0776fb5a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 7/8] fix: linearise CCBladeLoads at the current inputs

compute_partials used the derivatives left by the last compute, whatever inputs
that was run with, e.g. the perturbed inputs of a finite difference check, and
failed if there was no completed run.
---
 ccblade/ccblade_component.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 1c69302..66a4478 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -266,7 +266,7 @@ class CCBladeLoads(ExplicitComponent):
         self.declare_partials("loads_r", "r", val=1.0, rows=arange, cols=arange)
         self.declare_partials("*", "airfoils*", dependent=False)
 
-    def compute(self, inputs, outputs, discrete_inputs, discrete_outputs):
+    def _distributed_loads(self, inputs, discrete_inputs):
         r = inputs["r"]
         chord = inputs["chord"]
         theta = inputs["theta"]
@@ -332,12 +332,15 @@ class CCBladeLoads(ExplicitComponent):
         )
 
         # distributed loads
-        loads, self.derivs = ccblade.distributedAeroLoads(V_load, Omega_load, pitch_load, azimuth_load)
+        return ccblade.distributedAeroLoads(V_load, Omega_load, pitch_load, azimuth_load)
+
+    def compute(self, inputs, outputs, discrete_inputs, discrete_outputs):
+        loads, _ = self._distributed_loads(inputs, discrete_inputs)
         Np = loads["Np"]
         Tp = loads["Tp"]
 
         # unclear why we need this output at all
-        outputs["loads_r"] = r
+        outputs["loads_r"] = inputs["r"]
 
         # conform to blade-aligned coordinate system
         outputs["loads_Px"] = Np
@@ -345,8 +348,10 @@ class CCBladeLoads(ExplicitComponent):
         outputs["loads_Pz"][:] = 0.0
 
     def compute_partials(self, inputs, J, discrete_inputs):
-        dNp = self.derivs["dNp"]
-        dTp = self.derivs["dTp"]
+        # not those of the last run, which may have been at other inputs or may have failed
+        _, derivs = self._distributed_loads(inputs, discrete_inputs)
+        dNp = derivs["dNp"]
+        dTp = derivs["dTp"]
 
         J["loads_Px", "r"] = dNp["dr"]
         J["loads_Px", "chord"] = dNp["dchord"]
-- 
2.43.0


From cfffd2c10242a94dbaf0ebc93a6bb7e71ecea197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 8/8] fix: direction vectors share no derivative arrays with
 each other

---
 ccblade/csystem.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ccblade/csystem.py b/ccblade/csystem.py
index 934616d..45a0ff8 100644
--- a/ccblade/csystem.py
+++ b/ccblade/csystem.py
@@ -8,6 +8,7 @@ Copyright (c) NREL. All rights reserved.
 """
 
 from __future__ import print_function
+from copy import deepcopy
 import numpy as np
 
 
@@ -51,9 +52,9 @@ class DirectionVector(object):
             dz["dy"] = np.zeros_like(self.y)
             dz["dz"] = np.ones_like(self.z)
 
-        self.dx = dx
-        self.dy = dy
-        self.dz = dz
+        self.dx = deepcopy(dx)
+        self.dy = deepcopy(dy)
+        self.dz = deepcopy(dz)
 
     @classmethod
     def fromArray(cls, array):
@@ -422,26 +423,26 @@ class DirectionVector(object):
 
         dx = {}
         dx["d" + namea + "x"] = np.zeros_like(b.x)
-        dx["d" + namea + "y"] = b.z
+        dx["d" + namea + "y"] = np.copy(b.z)
         dx["d" + namea + "z"] = -b.y
         dx["d" + nameb + "x"] = np.zeros_like(a.x)
         dx["d" + nameb + "y"] = -a.z
-        dx["d" + nameb + "z"] = a.y
+        dx["d" + nameb + "z"] = np.copy(a.y)
 
         dy = {}
         dy["d" + namea + "x"] = -b.z
         dy["d" + namea + "y"] = np.zeros_like(b.y)
-        dy["d" + namea + "z"] = b.x
-        dy["d" + nameb + "x"] = a.z
+        dy["d" + namea + "z"] = np.copy(b.x)
+        dy["d" + nameb + "x"] = np.copy(a.z)
         dy["d" + nameb + "y"] = np.zeros_like(a.y)
         dy["d" + nameb + "z"] = -a.x
 
         dz = {}
-        dz["d" + namea + "x"] = b.y
+        dz["d" + namea + "x"] = np.copy(b.y)
         dz["d" + namea + "y"] = -b.x
         dz["d" + namea + "z"] = np.zeros_like(b.z)
         dz["d" + nameb + "x"] = -a.y
-        dz["d" + nameb + "y"] = a.x
+        dz["d" + nameb + "y"] = np.copy(a.x)
         dz["d" + nameb + "z"] = np.zeros_like(a.z)
 
         return dx, dy, dz
-- 
2.43.0

