From 9fc489bfc79a5cda83a705fde7482faabb97110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:51 +0000
Subject: [PATCH 01/94] fix: separate center_x and center_y in the
 CTNFW_GAUSS_DEC parameter list

---
 lenstronomy/LensModel/Profiles/gauss_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/gauss_decomposition.py b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
index 4ca089e..49d4d79 100644
--- a/lenstronomy/LensModel/Profiles/gauss_decomposition.py
+++ b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
@@ -555,7 +555,7 @@ class CTNFWGaussDec(GaussDecompositionAbstract3D):
     """This class computes the lensing properties of an projection from a spherical
     cored-truncated NFW profile using Shajib (2019)'s Gauss decomposition method."""
 
-    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x" "center_y"]
+    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x", "center_y"]
     lower_limit_default = {
         "r_s": 0,
         "r_core": 0,
-- 
2.43.0


From cba0627a91a8727cbbbd10e223fb9800aa3e03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:51 +0000
Subject: [PATCH 02/94] fix: SIS_TRUNCATED Hessian is evaluated relative to the
 profile centre

---
 lenstronomy/LensModel/Profiles/sis_truncate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/sis_truncate.py b/lenstronomy/LensModel/Profiles/sis_truncate.py
index 9135f08..8be8892 100644
--- a/lenstronomy/LensModel/Profiles/sis_truncate.py
+++ b/lenstronomy/LensModel/Profiles/sis_truncate.py
@@ -109,7 +109,7 @@ class SIS_truncate(LensProfileBase):
         y_shift = y - center_y
         dphi_dr = self._dphi_dr(x_shift, y_shift, theta_E, r_trunc)
         d2phi_dr2 = self._d2phi_dr2(x_shift, y_shift, theta_E, r_trunc)
-        dr_dx, dr_dy = self._dr_dx(x, y)
+        dr_dx, dr_dy = self._dr_dx(x_shift, y_shift)
         d2r_dx2, d2r_dy2, d2r_dxy = self._d2r_dx2(x_shift, y_shift)
         f_xx = d2r_dx2 * dphi_dr + dr_dx**2 * d2phi_dr2
         f_yy = d2r_dy2 * dphi_dr + dr_dy**2 * d2phi_dr2
-- 
2.43.0


From f73e38547216cf17ad41684ac9d645c1993b9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:51 +0000
Subject: [PATCH 03/94] fix: SHAPELETS_CART honours its centre for single-point
 evaluations

---
 .../Profiles/shapelet_pot_cartesian.py        | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
index 5bedbd9..65f8145 100644
--- a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
+++ b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
@@ -28,7 +28,9 @@ class CartShapelets(LensProfileBase):
         n_order = self._get_num_n(len(coeffs))
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_ = self._shapeletOutput(x, y, beta, shapelets, precalc=False)
+            f_ = self._shapeletOutput(
+                x - center_x, y - center_y, beta, shapelets, precalc=False
+            )
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order, center_x, center_y)
             f_ = self._shapeletOutput(H_x, H_y, beta, shapelets)
@@ -42,8 +44,12 @@ class CartShapelets(LensProfileBase):
         dy_shapelets = self._dy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_x = self._shapeletOutput(x, y, beta, dx_shapelets, precalc=False)
-            f_y = self._shapeletOutput(x, y, beta, dy_shapelets, precalc=False)
+            f_x = self._shapeletOutput(
+                x - center_x, y - center_y, beta, dx_shapelets, precalc=False
+            )
+            f_y = self._shapeletOutput(
+                x - center_x, y - center_y, beta, dy_shapelets, precalc=False
+            )
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order + 1, center_x, center_y)
             f_x = self._shapeletOutput(H_x, H_y, beta, dx_shapelets)
@@ -60,9 +66,15 @@ class CartShapelets(LensProfileBase):
         dxy_shapelets = self._dxy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_xx = self._shapeletOutput(x, y, beta, dxx_shapelets, precalc=False)
-            f_yy = self._shapeletOutput(x, y, beta, dyy_shapelets, precalc=False)
-            f_xy = self._shapeletOutput(x, y, beta, dxy_shapelets, precalc=False)
+            f_xx = self._shapeletOutput(
+                x - center_x, y - center_y, beta, dxx_shapelets, precalc=False
+            )
+            f_yy = self._shapeletOutput(
+                x - center_x, y - center_y, beta, dyy_shapelets, precalc=False
+            )
+            f_xy = self._shapeletOutput(
+                x - center_x, y - center_y, beta, dxy_shapelets, precalc=False
+            )
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order + 2, center_x, center_y)
             f_xx = self._shapeletOutput(H_x, H_y, beta, dxx_shapelets)
-- 
2.43.0


From 7731b9bac5fbfa42bb0324d982dab9d04ffb8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 04/94] fix: NIE_SIMPLE declares the parameters it accepts and
 their limits

---
 lenstronomy/LensModel/Profiles/nie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/nie.py b/lenstronomy/LensModel/Profiles/nie.py
index 64b5c57..e796e5a 100644
--- a/lenstronomy/LensModel/Profiles/nie.py
+++ b/lenstronomy/LensModel/Profiles/nie.py
@@ -238,7 +238,9 @@ class NIEMajorAxis(LensProfileBase):
 
     """
 
-    param_names = ["b", "s", "q", "center_x", "center_y"]
+    param_names = ["b", "s", "q"]
+    lower_limit_default = {"b": 0, "s": 0, "q": 0}
+    upper_limit_default = {"b": 100, "s": 100, "q": 1}
 
     def __init__(self, diff=0.0000000001):
         self._diff = diff
-- 
2.43.0


From debe3bbb723c866df3e959e13f8f1413adbd2fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:36 +0000
Subject: [PATCH 05/94] fix: ElliSLICE declares default limits for sigma_0

---
 lenstronomy/LensModel/Profiles/elliptical_density_slice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
index ee0f98d..10eabde 100644
--- a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
+++ b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
@@ -41,6 +41,7 @@ class ElliSLICE(LensProfileBase):
         "a": 0.0,
         "b": 0.0,
         "psi": -90.0 / 180.0 * np.pi,
+        "sigma_0": 0.0,
         "center_x": -100.0,
         "center_y": -100.0,
     }
@@ -48,6 +49,7 @@ class ElliSLICE(LensProfileBase):
         "a": 100.0,
         "b": 100.0,
         "psi": 90.0 / 180.0 * np.pi,
+        "sigma_0": 100.0,
         "center_x": 100.0,
         "center_y": 100.0,
     }
-- 
2.43.0


From e5695d62b526f467b69ffda7ca23a13345c9d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:36 +0000
Subject: [PATCH 06/94] fix: CORE_SERSIC declares default limits for R_sersic

---
 lenstronomy/LightModel/Profiles/sersic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LightModel/Profiles/sersic.py b/lenstronomy/LightModel/Profiles/sersic.py
index 486f8a8..815bbe4 100644
--- a/lenstronomy/LightModel/Profiles/sersic.py
+++ b/lenstronomy/LightModel/Profiles/sersic.py
@@ -222,6 +222,7 @@ class CoreSersic(SersicUtil):
     ]
     lower_limit_default = {
         "amp": 0,
+        "R_sersic": 0,
         "Rb": 0,
         "n_sersic": 0.5,
         "gamma": 0,
@@ -232,6 +233,7 @@ class CoreSersic(SersicUtil):
     }
     upper_limit_default = {
         "amp": 100,
+        "R_sersic": 100,
         "Rb": 100,
         "n_sersic": 8,
         "gamma": 10,
-- 
2.43.0


From 5e9e62c6b3033878b64725d73c5a7394175f475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:36 +0000
Subject: [PATCH 07/94] fix: LINEAR_ELLIPSE upper ellipticity limits are above
 the lower ones

---
 lenstronomy/LightModel/Profiles/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index 660ea77..bfd760c 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -75,8 +75,8 @@ class LinearEllipse(object):
     upper_limit_default = {
         "k": 1000,
         "amp": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
-- 
2.43.0


From 35779fb66e73141f8d09ea94eaa0730703a10005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:36 +0000
Subject: [PATCH 08/94] fix: count the linear amplitude of SERSIC_ELLIPSE_Q_PHI

---
 lenstronomy/LightModel/linear_basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LightModel/linear_basis.py b/lenstronomy/LightModel/linear_basis.py
index 8e65696..2c5fd52 100644
--- a/lenstronomy/LightModel/linear_basis.py
+++ b/lenstronomy/LightModel/linear_basis.py
@@ -142,6 +142,7 @@ class LinearBasis(LightModelBase):
                 "SERSIC",
                 "SERSIC_ELLIPSE",
                 "SERSIC_ELLIPSE_FLEXION",
+                "SERSIC_ELLIPSE_Q_PHI",
                 "TRIPLE_CHAMELEON",
                 "UNIFORM",
             ]:
-- 
2.43.0


From 4879428e087d77dc355d35f433f49bf3bf6be33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:36 +0000
Subject: [PATCH 09/94] fix: ARC_PERT declares default parameter limits

---
 .../LensModel/Profiles/arc_perturbations.py        | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/arc_perturbations.py b/lenstronomy/LensModel/Profiles/arc_perturbations.py
index 12f3a6e..7ffb6f5 100644
--- a/lenstronomy/LensModel/Profiles/arc_perturbations.py
+++ b/lenstronomy/LensModel/Profiles/arc_perturbations.py
@@ -11,6 +11,20 @@ class ArcPerturbations(LensProfileBase):
     directions to perturb a lensing potential."""
 
     param_names = ["coeff", "d_r", "d_phi", "center_x", "center_y"]
+    lower_limit_default = {
+        "coeff": -100,
+        "d_r": 0,
+        "d_phi": 0,
+        "center_x": -100,
+        "center_y": -100,
+    }
+    upper_limit_default = {
+        "coeff": 100,
+        "d_r": 100,
+        "d_phi": 2 * np.pi,
+        "center_x": 100,
+        "center_y": 100,
+    }
 
     def __init__(self):
         super(ArcPerturbations, self).__init__()
-- 
2.43.0


From 4a14d78895c50ad852d284c0ebb631f4890ac3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:36 +0000
Subject: [PATCH 10/94] fix: list CURVED_ARC_CONST_MST among the supported lens
 models

---
 lenstronomy/LensModel/profile_list_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/profile_list_base.py b/lenstronomy/LensModel/profile_list_base.py
index df6ecdc..d9b233e 100644
--- a/lenstronomy/LensModel/profile_list_base.py
+++ b/lenstronomy/LensModel/profile_list_base.py
@@ -23,6 +23,7 @@ _SUPPORTED_MODELS = [
     "CSE",
     "CTNFW_GAUSS_DEC",
     "CURVED_ARC_CONST",
+    "CURVED_ARC_CONST_MST",
     "CURVED_ARC_SIS_MST",
     "CURVED_ARC_SPP",
     "CURVED_ARC_SPT",
-- 
2.43.0


From 6c5d98b4bb5c909ace82a55b89d5b3d9b91b3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:46 +0000
Subject: [PATCH 11/94] fix: LightParam packs the SHAPELETS_ELLIPSE amplitudes
 as an array

---
 lenstronomy/LightModel/light_param.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LightModel/light_param.py b/lenstronomy/LightModel/light_param.py
index 9ad3824..cdc1e26 100644
--- a/lenstronomy/LightModel/light_param.py
+++ b/lenstronomy/LightModel/light_param.py
@@ -79,7 +79,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                            "SHAPELETS_ELLIPSE",
+                        ]
                         and name == "amp"
                     ):
                         if "n_max" in kwargs_fixed:
@@ -141,7 +147,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                            "SHAPELETS_ELLIPSE",
+                        ]
                         and name == "amp"
                     ):
                         n_max = kwargs_fixed.get("n_max", kwargs.get("n_max"))
@@ -213,7 +225,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                            "SHAPELETS_ELLIPSE",
+                        ]
                         and name == "amp"
                     ):
                         if "n_max" not in kwargs_fixed:
-- 
2.43.0


From 4b60c916a1d5df51f92b3ed3c3074c4eac003fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:46 +0000
Subject: [PATCH 12/94] fix: LightParam packs the MGE_SET amplitudes as an
 array

---
 lenstronomy/LightModel/light_param.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lenstronomy/LightModel/light_param.py b/lenstronomy/LightModel/light_param.py
index cdc1e26..a7e89cc 100644
--- a/lenstronomy/LightModel/light_param.py
+++ b/lenstronomy/LightModel/light_param.py
@@ -108,6 +108,10 @@ class LightParam(object):
                             raise ValueError("sigma needs to be fixed in %s." % model)
                         kwargs["amp"] = args[i : i + num_param]
                         i += num_param
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        kwargs["amp"] = args[i : i + num_param]
+                        i += num_param
                     elif (
                         model in ["SLIT_STARLETS", "SLIT_STARLETS_GEN2"]
                         and name == "amp"
@@ -201,6 +205,10 @@ class LightParam(object):
                         num_param = len(kwargs["sigma"])
                         for i in range(num_param):
                             args.append(kwargs[name][i])
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        for i in range(num_param):
+                            args.append(kwargs[name][i])
                     elif (
                         model in ["MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE"]
                         and name == "sigma"
@@ -271,6 +279,11 @@ class LightParam(object):
                         num += num_param
                         for i in range(num_param):
                             name_list.append(str(name + "_" + self._type + str(k)))
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        num += num_param
+                        for i in range(num_param):
+                            name_list.append(str(name + "_" + self._type + str(k)))
                     else:
                         num += 1
                         name_list.append(str(name + "_" + self._type + str(k)))
-- 
2.43.0


From a4c002782437fe620e372d635d1cf11555c5fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:04 +0000
Subject: [PATCH 13/94] fix: elliptical Gaussian light profiles have a
 non-empty default ellipticity range

---
 lenstronomy/LightModel/Profiles/gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/gaussian.py b/lenstronomy/LightModel/Profiles/gaussian.py
index 74806de..0c7b2e4 100644
--- a/lenstronomy/LightModel/Profiles/gaussian.py
+++ b/lenstronomy/LightModel/Profiles/gaussian.py
@@ -87,8 +87,8 @@ class GaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
@@ -247,8 +247,8 @@ class MultiGaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
-- 
2.43.0


From 7a6398c1d11107f868c33a23c113165638b9f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:13 +0000
Subject: [PATCH 14/94] fix: a lens joined to a source light follows a joint
 source parameter

---
 lenstronomy/Sampling/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 1556b09..490013f 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -595,6 +595,11 @@ class Param(object):
         kwargs_lens = self._update_joint_param(
             kwargs_lens_light, kwargs_lens, self._joint_lens_with_light
         )
+        # links between source models need to be resolved before they are passed on to
+        # the lens model
+        kwargs_source = self._update_joint_param(
+            kwargs_source, kwargs_source, self._joint_source_with_source
+        )
         kwargs_lens = self._update_joint_param(
             kwargs_source, kwargs_lens, self._joint_lens_with_source_light
         )
-- 
2.43.0


From 597c5189d6dc42480b9c94332f33fdafe6a0bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:44 +0000
Subject: [PATCH 15/94] fix: apply source-redshift scaling when a single lens
 component is selected by index

---
 lenstronomy/LensModel/single_plane.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/single_plane.py b/lenstronomy/LensModel/single_plane.py
index 81aa8a6..7281f0a 100644
--- a/lenstronomy/LensModel/single_plane.py
+++ b/lenstronomy/LensModel/single_plane.py
@@ -93,7 +93,10 @@ class SinglePlane(ProfileListBase):
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
         if isinstance(k, int):
-            return np.asarray(self.func_list[k].function(x, y, **kwargs[k]))
+            return (
+                np.asarray(self.func_list[k].function(x, y, **kwargs[k]))
+                * self._alpha_scaling
+            )
         bool_list = self._bool_list(k)
         potential = np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -118,7 +121,10 @@ class SinglePlane(ProfileListBase):
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
         if isinstance(k, int):
             f_x, f_y = self.func_list[k].derivatives(x, y, **kwargs[k])
-            return np.asarray(f_x), np.asarray(f_y)
+            return (
+                np.asarray(f_x) * self._alpha_scaling,
+                np.asarray(f_y) * self._alpha_scaling,
+            )
         bool_list = self._bool_list(k)
         f_x, f_y = np.zeros_like(x), np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -151,10 +157,10 @@ class SinglePlane(ProfileListBase):
         if isinstance(k, int):
             f_xx, f_xy, f_yx, f_yy = self.func_list[k].hessian(x, y, **kwargs[k])
             return (
-                np.asarray(f_xx),
-                np.asarray(f_xy),
-                np.asarray(f_yx),
-                np.asarray(f_yy),
+                np.asarray(f_xx) * self._alpha_scaling,
+                np.asarray(f_xy) * self._alpha_scaling,
+                np.asarray(f_yx) * self._alpha_scaling,
+                np.asarray(f_yy) * self._alpha_scaling,
             )
 
         bool_list = self._bool_list(k)
-- 
2.43.0


From 6359332a7f1cd99820b4e5a78bd031fdf7f57203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:40 +0000
Subject: [PATCH 16/94] fix: start the ray of hessian_z1z2 at the requested
 y-position

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index 626d520..ee3efb6 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -586,7 +586,7 @@ class MultiPlane(object):
 
         T_0z1 = self._multi_plane_base._cosmo_bkg.T_xy(0, z1)
         x = theta_x * T_0z1
-        y = theta_x * T_0z1
+        y = theta_y * T_0z1
         x_s0, y_s0, _, _ = self.ray_shooting_partial_comoving(
             x=x,
             y=y,
-- 
2.43.0


From 4cfea818bc10d4dee87c6cc3f9005fbe4e33fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:40 +0000
Subject: [PATCH 17/94] fix: convert observed lens positions with the distance
 of their own plane

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index ee3efb6..b27e795 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -766,7 +766,7 @@ class LensedLocation(object):
                 T_ij_end=None,
             )
 
-            T = self._multiplane.T_z_list[ind]
+            T = self._multiplane._cosmo_bkg.T_xy(0, zstop)
             new_kwargs[ind]["center_x"] = x / T
             new_kwargs[ind]["center_y"] = y / T
 
-- 
2.43.0


From d78ca370029a025bd61c1977f8379dd7a32f47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:40 +0000
Subject: [PATCH 18/94] fix: arrival time ignores deflectors behind the source

---
 lenstronomy/LensModel/MultiPlane/multi_plane_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
index deb1c8f..cf50ff7 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
@@ -353,7 +353,7 @@ class MultiPlaneBase(ProfileListBase):
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
 
-        i = 0
+        i_last = None
         z_lens_last = 0
         for i, index in enumerate(self._sorted_redshift_index):
             z_lens = self._lens_redshift_list[index]
@@ -378,7 +378,11 @@ class MultiPlaneBase(ProfileListBase):
                 )
 
                 dt_grav += dt_grav_new
+                i_last = i
                 z_lens_last = z_lens
+        if i_last is None:
+            # no deflector in front of z_stop, light travels on a straight line
+            return np.asarray(dt_geo), np.asarray(dt_grav)
         if T_ij_end is None:
             T_ij_end = self._cosmo_bkg.T_xy(z_lens_last, z_stop)
         T_ij = T_ij_end
@@ -386,7 +390,7 @@ class MultiPlaneBase(ProfileListBase):
         if T_z_stop is None:
             T_z_stop = self._cosmo_bkg.T_xy(0, z_stop)
         T_j = T_z_stop
-        T_i = self._T_z_list[i]
+        T_i = self._T_z_list[i_last]
         beta_i_x, beta_i_y = x / T_i, y / T_i
         beta_j_x, beta_j_y = x_new / T_j, y_new / T_j
         dt_geo_new = self._geometrical_delay(
-- 
2.43.0


From ea095504e1ca2c74290de6b4f305f8e6ce02b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:40 +0000
Subject: [PATCH 19/94] fix: potential of the line-of-sight model uses the main
 lens keyword arguments

---
 lenstronomy/LensModel/LineOfSight/single_plane_los.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los.py b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
index 44ad5af..dfcb4d2 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
@@ -400,6 +400,7 @@ class SinglePlaneLOS(SinglePlane):
               derive from a potential.")
 
         # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main, kwargs_los = self.split_lens_los(kwargs)
+        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
 
         return potential
-- 
2.43.0


From a93678efcce97bcd4c1adc57e97c8b42daed9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:30 +0000
Subject: [PATCH 20/94] fix: potential of the line-of-sight flexion model uses
 the main lens keyword arguments

---
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index b2c9092..21836fe 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -595,6 +595,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
               derive from a potential.")
 
         # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main, kwargs_los = self.split_lens_los_flexion(kwargs)
+        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
 
         return potential
-- 
2.43.0


From c87dda49f983f8154c76b30b073123a30325a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:30 +0000
Subject: [PATCH 21/94] fix: Hessian of the line-of-sight flexion model
 includes the rotation

---
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index 21836fe..24cff9d 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -511,8 +511,8 @@ class SinglePlaneLOSFlexion(SinglePlane):
 
         # LOS contribution in the absence of the main lens
         f_xx += kappa_os + gamma1_os
-        f_xy += gamma2_os
-        f_yx += gamma2_os
+        f_xy += gamma2_os - kwargs_los_flexion["omega_os"]
+        f_yx += gamma2_os + kwargs_los_flexion["omega_os"]
         f_yy += kappa_os - gamma1_os
 
         return f_xx.real, f_xy.real, f_yx.real, f_yy.real
-- 
2.43.0


From 94f98148d98c81e13ddba573119e9496288fc6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:30 +0000
Subject: [PATCH 22/94] fix: redshifts of the main lens exclude the
 line-of-sight flexion model

---
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index 24cff9d..5dacb53 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -76,7 +76,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
         self._main_lens = SinglePlane(
             lens_model_list_wo_los,
             profile_kwargs_list=profile_kwargs_list_wo_los,
-            lens_redshift_list=lens_redshift_list,
+            lens_redshift_list=lens_redshift_list_wo_los,
             z_source_convention=z_source_convention,
         )
 
-- 
2.43.0


From dc8f0f558787760c0e7616dbfa9cbe3377fe5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 23/94] fix: ImageNoise does not overwrite the exposure map of
 the caller

---
 lenstronomy/Data/image_noise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Data/image_noise.py b/lenstronomy/Data/image_noise.py
index a0ef6a8..5d81354 100644
--- a/lenstronomy/Data/image_noise.py
+++ b/lenstronomy/Data/image_noise.py
@@ -42,7 +42,9 @@ class ImageNoise(object):
                 if exposure_time <= 10 ** (-10):
                     exposure_time = 10 ** (-10)
             else:
-                exposure_time[exposure_time <= 10 ** (-10)] = 10 ** (-10)
+                exposure_time = np.where(
+                    exposure_time <= 10 ** (-10), 10 ** (-10), exposure_time
+                )
         self._exp_map = exposure_time
         self._background_rms = background_rms
         self._noise_map = noise_map
-- 
2.43.0


From 30da078de0811f450767044a43a8f770be5c8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 24/94] fix: loading lens profiles does not write into the
 profile_kwargs of the caller

---
 lenstronomy/LensModel/profile_list_base.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/profile_list_base.py b/lenstronomy/LensModel/profile_list_base.py
index d9b233e..6ad6d30 100644
--- a/lenstronomy/LensModel/profile_list_base.py
+++ b/lenstronomy/LensModel/profile_list_base.py
@@ -194,8 +194,12 @@ class ProfileListBase(object):
         imported_profile_kwargs = []
         for i, lens_type in enumerate(lens_model_list):
             if lens_type in ["NFW_MC", "NFW_MC_ELLIPSE_POTENTIAL"]:
-                profile_kwargs_list[i]["z_lens"] = lens_redshift_list[i]
-                profile_kwargs_list[i]["z_source"] = z_source_convention
+                profile_kwargs_list = list(profile_kwargs_list)
+                profile_kwargs_list[i] = {
+                    **(profile_kwargs_list[i] or {}),
+                    "z_lens": lens_redshift_list[i],
+                    "z_source": z_source_convention,
+                }
             if use_jax[i] is True:
                 init_lens_class = lens_class_jax
             else:
@@ -374,7 +378,7 @@ def lens_class(
     elif lens_type == "CORED_DENSITY_2_MST":
         from lenstronomy.LensModel.Profiles.cored_density_mst import CoredDensityMST
 
-        profile_kwargs["profile_type"] = "CORED_DENSITY_2"
+        profile_kwargs = {**profile_kwargs, "profile_type": "CORED_DENSITY_2"}
         return CoredDensityMST(**profile_kwargs)
     elif lens_type == "CORED_DENSITY_EXP":
         from lenstronomy.LensModel.Profiles.cored_density_exp import CoredDensityExp
@@ -383,17 +387,17 @@ def lens_class(
     elif lens_type == "CORED_DENSITY_EXP_MST":
         from lenstronomy.LensModel.Profiles.cored_density_mst import CoredDensityMST
 
-        profile_kwargs["profile_type"] = "CORED_DENSITY_EXP"
+        profile_kwargs = {**profile_kwargs, "profile_type": "CORED_DENSITY_EXP"}
         return CoredDensityMST(**profile_kwargs)
     elif lens_type == "CORED_DENSITY_MST":
         from lenstronomy.LensModel.Profiles.cored_density_mst import CoredDensityMST
 
-        profile_kwargs["profile_type"] = "CORED_DENSITY"
+        profile_kwargs = {**profile_kwargs, "profile_type": "CORED_DENSITY"}
         return CoredDensityMST(**profile_kwargs)
     elif lens_type == "CORED_DENSITY_ULDM_MST":
         from lenstronomy.LensModel.Profiles.cored_density_mst import CoredDensityMST
 
-        profile_kwargs["profile_type"] = "CORED_DENSITY_ULDM"
+        profile_kwargs = {**profile_kwargs, "profile_type": "CORED_DENSITY_ULDM"}
         return CoredDensityMST(**profile_kwargs)
     elif lens_type == "CSE":
         from lenstronomy.LensModel.Profiles.cored_steep_ellipsoid import CSE
-- 
2.43.0


From 4a2c30bd76c7e62c7cb9972d682092f620218bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 25/94] fix: loading light profiles does not write into the
 profile_kwargs of the caller

---
 lenstronomy/LightModel/light_model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LightModel/light_model_base.py b/lenstronomy/LightModel/light_model_base.py
index 00d392b..c8095fc 100644
--- a/lenstronomy/LightModel/light_model_base.py
+++ b/lenstronomy/LightModel/light_model_base.py
@@ -134,14 +134,14 @@ class LightModelBase(object):
                     ShapeletSetPolar,
                 )
 
-                profile_kwargs["exponential"] = False
+                profile_kwargs = {**profile_kwargs, "exponential": False}
                 self.func_list.append(ShapeletSetPolar(**profile_kwargs))
             elif profile_type == "SHAPELETS_POLAR_EXP":
                 from lenstronomy.LightModel.Profiles.shapelets_polar import (
                     ShapeletSetPolar,
                 )
 
-                profile_kwargs["exponential"] = True
+                profile_kwargs = {**profile_kwargs, "exponential": True}
                 self.func_list.append(ShapeletSetPolar(**profile_kwargs))
             elif profile_type == "HERNQUIST":
                 from lenstronomy.LightModel.Profiles.hernquist import Hernquist
-- 
2.43.0


From 10e635dea32d295636a36c124a17442f613e4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 26/94] fix: cnfw_gamma and cBurkGamma do not clip the radii of
 the caller in place

---
 lenstronomy/LensModel/Profiles/cnfw.py        | 2 +-
 lenstronomy/LensModel/Profiles/coreBurkert.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/cnfw.py b/lenstronomy/LensModel/Profiles/cnfw.py
index a866882..0735cc4 100644
--- a/lenstronomy/LensModel/Profiles/cnfw.py
+++ b/lenstronomy/LensModel/Profiles/cnfw.py
@@ -217,7 +217,7 @@ class CNFW(LensProfileBase):
         if isinstance(R, int) or isinstance(R, float):
             R = max(R, c)
         else:
-            R[R <= c] = c
+            R = np.where(R <= c, c, R)
         x = R * Rs**-1
         b = r_core * Rs**-1
         b = max(b, c)
diff --git a/lenstronomy/LensModel/Profiles/coreBurkert.py b/lenstronomy/LensModel/Profiles/coreBurkert.py
index 6cbb91b..68724c1 100644
--- a/lenstronomy/LensModel/Profiles/coreBurkert.py
+++ b/lenstronomy/LensModel/Profiles/coreBurkert.py
@@ -217,7 +217,7 @@ class CoreBurkert(LensProfileBase):
         if isinstance(R, int) or isinstance(R, float):
             R = max(R, c)
         else:
-            R[R <= c] = c
+            R = np.where(R <= c, c, R)
 
         x = R * Rs**-1
         p = Rs * r_core**-1
-- 
2.43.0


From be6328f5f824e082eb5258bbf638e3b66dd520e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 27/94] fix: SourcePositions.image_amplitude does not rescale
 point_amp of the caller

---
 lenstronomy/PointSource/Types/source_position.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 4a82889..eca7c12 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -110,8 +110,8 @@ class SourcePositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         mag_pert = kwargs_ps.get("mag_pert", 1)
         mag_pert = _shrink_array(mag_pert, len(point_amp))
-        point_amp *= np.array(mag_pert)
-        return np.array(point_amp)
+        point_amp = np.array(point_amp) * np.array(mag_pert)
+        return point_amp
 
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
-- 
2.43.0


From c583963b486d4e8fe996c2d632f4de1b4fc9a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 28/94] fix: ArrayParam.get_params does not clip the argument
 vector of the caller

---
 lenstronomy/Sampling/param_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/param_group.py b/lenstronomy/Sampling/param_group.py
index 35a75aa..7c2e2bc 100644
--- a/lenstronomy/Sampling/param_group.py
+++ b/lenstronomy/Sampling/param_group.py
@@ -7,6 +7,7 @@ parameters you can safely ignore this.
 __author__ = "jhodonnell"
 __all__ = ["ModelParamGroup", "SingleParam", "ArrayParam"]
 
+import copy
 import numpy as np
 
 
@@ -303,7 +304,7 @@ class ArrayParam(ModelParamGroup):
         params = {}
         for name, count in self.param_names.items():
             if name not in kwargs_fixed:
-                params[name] = args[i : i + count]
+                params[name] = copy.copy(args[i : i + count])
 
                 if kwargs_lower is not None:
                     for j in range(len(params[name])):
-- 
2.43.0


From f2a9451873b193af8ec07a39e9eaa2fb257c446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 29/94] fix: half_light_radius does not clip the surface
 brightness of the caller

---
 lenstronomy/Util/analysis_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/analysis_util.py b/lenstronomy/Util/analysis_util.py
index 204a2ea..024525f 100644
--- a/lenstronomy/Util/analysis_util.py
+++ b/lenstronomy/Util/analysis_util.py
@@ -19,7 +19,7 @@ def half_light_radius(lens_light, x_grid, y_grid, center_x=0, center_y=0):
     :param center_y: center of light
     :return:
     """
-    lens_light[lens_light < 0] = 0
+    lens_light = np.where(lens_light < 0, 0, lens_light)
     total_flux_2 = np.sum(lens_light) / 2.0
     r_max = np.max(np.sqrt((x_grid - center_x) ** 2 + (y_grid - center_y) ** 2))
     for i in range(1000):
-- 
2.43.0


From 8d43df1d8d36dc83afe76287ec8fe522e04b8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 30/94] fix: folding_coolest does not fold the angles of the
 caller in place

---
 lenstronomy/Util/coolest_update_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Util/coolest_update_util.py b/lenstronomy/Util/coolest_update_util.py
index 579f2be..0180909 100644
--- a/lenstronomy/Util/coolest_update_util.py
+++ b/lenstronomy/Util/coolest_update_util.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from coolest.template.classes.parameter import PointEstimate
 from coolest.template.classes.probabilities import PosteriorStatistics
@@ -70,7 +71,7 @@ def folding_coolest(value):
         ]-90;90])
     :return: float, angle in COOLEST conventions (with folding in ]-90;90])
     """
-    coolest_oriented_degree = value
+    coolest_oriented_degree = copy.copy(value)
     if type(coolest_oriented_degree) == type(np.array([])):
         for idx, val in enumerate(coolest_oriented_degree):
             if val <= -90.0:
-- 
2.43.0


From 83b390fda36431cfa833674f7d274a6a51698c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 31/94] fix: kernel_norm returns the normalised kernel without
 changing its argument

---
 lenstronomy/Util/kernel_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 98c76d4..ef60239 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -128,8 +128,7 @@ def kernel_norm(kernel):
     :return: normalisation of the psf kernel
     """
     norm = np.sum(np.array(kernel))
-    kernel /= norm
-    return kernel
+    return kernel / norm
 
 
 @export
-- 
2.43.0


From 4645bf0f9aa60e9dcc38dc800dff8fc5f6771e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:29 +0000
Subject: [PATCH 32/94] fix: fit_sequence does not store init_samples in the
 fitting list of the caller

---
 lenstronomy/Workflow/fitting_sequence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 1c73575..03e776c 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -143,10 +143,8 @@ class FittingSequence(object):
                 if fitting_type == "MCMC":
                     print("MCMC selected. Sampling with default option emcee.")
                     fitting_type = "emcee"
-                if "init_samples" not in kwargs:
-                    kwargs["init_samples"] = self._mcmc_init_samples
-                elif kwargs["init_samples"] is None:
-                    kwargs["init_samples"] = self._mcmc_init_samples
+                if kwargs.get("init_samples", None) is None:
+                    kwargs = {**kwargs, "init_samples": self._mcmc_init_samples}
                 mcmc_output = self.mcmc(**kwargs, sampler_type=fitting_type)
                 kwargs_result = self._result_from_mcmc(mcmc_output)
                 self._updateManager.update_param_state(**kwargs_result)
-- 
2.43.0


From d441a2621e1349f34154a8caa0d809cd7d4a15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:30 +0000
Subject: [PATCH 33/94] fix: MultiBandImageReconstruction leaves kwargs_params
 of the caller complete

---
 lenstronomy/Analysis/image_reconstruction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Analysis/image_reconstruction.py b/lenstronomy/Analysis/image_reconstruction.py
index c0972d3..9de6497 100644
--- a/lenstronomy/Analysis/image_reconstruction.py
+++ b/lenstronomy/Analysis/image_reconstruction.py
@@ -59,6 +59,7 @@ class MultiBandImageReconstruction(object):
         linear_prior = kwargs_likelihood.get("linear_prior", None)
         bands_compute = kwargs_likelihood.get("bands_compute", None)
         # pop out the tracer_source arguments as they should not be passed to linear inversion routines
+        kwargs_params = dict(kwargs_params)
         kwargs_tracer_source_temp = kwargs_params.pop("kwargs_tracer_source", None)
         if bands_compute is None:
             bands_compute = [True] * len(multi_band_list)
-- 
2.43.0


From a74f32e45b5ca3b245bf413456bc20d3b937fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:30 +0000
Subject: [PATCH 34/94] fix: PointSource keeps its own lens equation solver
 settings

---
 lenstronomy/PointSource/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index dc06ee5..e1fcffe 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -127,7 +127,7 @@ class PointSource(object):
                 )
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
-        self._kwargs_lens_eqn_solver = kwargs_lens_eqn_solver
+        self._kwargs_lens_eqn_solver = dict(kwargs_lens_eqn_solver)
         self._magnification_limit = magnification_limit
         self._save_cache = save_cache
 
-- 
2.43.0


From bb0bc54658d1afaa89a9885bf967368a477fda71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:30 +0000
Subject: [PATCH 35/94] fix: AnalyticKinematics does not store the
 normalisation in kwargs_mass of the caller

---
 lenstronomy/GalKin/analytic_kinematics.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/GalKin/analytic_kinematics.py b/lenstronomy/GalKin/analytic_kinematics.py
index ad46a12..91d8c6b 100644
--- a/lenstronomy/GalKin/analytic_kinematics.py
+++ b/lenstronomy/GalKin/analytic_kinematics.py
@@ -185,13 +185,11 @@ class AnalyticKinematics(Anisotropy):
         """
         a = self._get_hernquist_scale_radius(kwargs_light)
 
-        if "rho0_r0_gamma" not in kwargs_mass:
-            kwargs_mass["rho0_r0_gamma"] = self._rho0_r0_gamma(
-                kwargs_mass["theta_E"], kwargs_mass["gamma"]
-            )
-
         gamma = kwargs_mass["gamma"]
-        rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        if "rho0_r0_gamma" in kwargs_mass:
+            rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        else:
+            rho0_r0_gamma = self._rho0_r0_gamma(kwargs_mass["theta_E"], gamma)
         r_ani = kwargs_anisotropy["r_ani"]
 
         return a, gamma, rho0_r0_gamma, r_ani
-- 
2.43.0


From 2c7fcf6e68fc8cb0740e6f107bf0b22501ed0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:30 +0000
Subject: [PATCH 36/94] fix: NFW.g_ and NFW.h_ do not clip the radii of the
 caller in place

---
 lenstronomy/LensModel/Profiles/nfw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/nfw.py b/lenstronomy/LensModel/Profiles/nfw.py
index 8cfd31d..ccba0e2 100644
--- a/lenstronomy/LensModel/Profiles/nfw.py
+++ b/lenstronomy/LensModel/Profiles/nfw.py
@@ -432,7 +432,7 @@ class NFW(LensProfileBase):
 
         else:
             a = np.empty_like(X)
-            X[X <= c] = c
+            X = np.where(X <= c, c, X)
             x = X[X < 1]
             a[X < 1] = np.log(x / 2.0) + 1 / np.sqrt(1 - x**2) * np.arccosh(1.0 / x)
             a[X == 1] = 1 + np.log(1.0 / 2.0)
-- 
2.43.0


From b674aaa87cb5e1ca03b126373de42577cf39641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:30 +0000
Subject: [PATCH 37/94] fix: LightParam and PointSourceParam do not add linear
 parameters to kwargs_fixed of the caller

---
 lenstronomy/LightModel/light_param.py         | 6 +++++-
 lenstronomy/PointSource/point_source_param.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LightModel/light_param.py b/lenstronomy/LightModel/light_param.py
index a7e89cc..10bbc30 100644
--- a/lenstronomy/LightModel/light_param.py
+++ b/lenstronomy/LightModel/light_param.py
@@ -1,3 +1,5 @@
+import copy
+
 from lenstronomy.LightModel.light_model import LightModel
 
 __all__ = ["LightParam"]
@@ -41,7 +43,9 @@ class LightParam(object):
         self.model_list = light_model_list
         self.kwargs_fixed = kwargs_fixed
         if linear_solver:
-            self.kwargs_fixed = self._lightModel.add_fixed_linear(self.kwargs_fixed)
+            self.kwargs_fixed = self._lightModel.add_fixed_linear(
+                copy.deepcopy(kwargs_fixed)
+            )
         self._linear_solve = linear_solver
         if kwargs_lower is None:
             kwargs_lower = []
diff --git a/lenstronomy/PointSource/point_source_param.py b/lenstronomy/PointSource/point_source_param.py
index ae5c75a..876f4c1 100644
--- a/lenstronomy/PointSource/point_source_param.py
+++ b/lenstronomy/PointSource/point_source_param.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 
 __all__ = ["PointSourceParam"]
@@ -89,7 +90,7 @@ class PointSourceParam(object):
         self._fixed_magnification_list = fixed_magnification_list
         self.kwargs_fixed = kwargs_fixed
         if linear_solver is True:
-            self.kwargs_fixed = self.add_fix_linear(kwargs_fixed)
+            self.kwargs_fixed = self.add_fix_linear(copy.deepcopy(kwargs_fixed))
         self._linear_solver = linear_solver
 
         self.param_groups = []
-- 
2.43.0


From c081620cc851fb49d23a64878d643b500da65de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:30 +0000
Subject: [PATCH 38/94] fix: TimeDelayLikelihood does not expand
 time_delay_measurement_bool_list of the caller in place

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 318828a..fe9ca38 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -90,6 +90,7 @@ class TimeDelayLikelihood(object):
                 raise ValueError(
                     "time_delay_measurement_bool_list must have the same length as the number of point sources."
                 )
+            time_delay_measurement_bool_list = list(time_delay_measurement_bool_list)
             for i in range(self._num_point_sources):
                 if isinstance(
                     time_delay_measurement_bool_list[i], (bool, np.bool_, int)
-- 
2.43.0


From 7697fedfeb2c43759c1a0ac02c39a877419f874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:30 +0000
Subject: [PATCH 39/94] fix: evaluating the alignment likelihood does not shift
 the data of the caller

---
 lenstronomy/Workflow/alignment_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/alignment_matching.py b/lenstronomy/Workflow/alignment_matching.py
index b96a9c5..df15404 100644
--- a/lenstronomy/Workflow/alignment_matching.py
+++ b/lenstronomy/Workflow/alignment_matching.py
@@ -153,7 +153,7 @@ class AlignmentLikelihood(object):
         :return: updated multi_band_list
         """
         kwargs_data = self.update_data(args)
-        multi_band_list = self._multi_band_list
+        multi_band_list = [list(band) for band in self._multi_band_list]
         multi_band_list[self._band_index][0] = kwargs_data
         return multi_band_list
 
-- 
2.43.0


From 42c798df789c41819f95f6e9f15c776e8278057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:30 +0000
Subject: [PATCH 40/94] fix: changing fit settings does not modify the model,
 constraint and parameter kwargs of the caller

---
 lenstronomy/Workflow/update_manager.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index bedbf0e..f3c387e 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -33,6 +33,7 @@ class UpdateManager(object):
          'special': [kwargs_init, kwargs_sigma, kwargs_fixed, kwargs_lower, kwargs_upper]
 
         """
+        kwargs_params = copy.deepcopy(kwargs_params)
         self.kwargs_model = kwargs_model
         self.kwargs_constraints = kwargs_constraints
         self.kwargs_likelihood = kwargs_likelihood
@@ -549,15 +550,11 @@ class UpdateManager(object):
         if kwargs_constraints is None:
             kwargs_constraints = {}
         if kwargs_likelihood is None:
-            kwargs_likelihood = []
-        kwargs_model_updated = self.kwargs_model.update(kwargs_model)
-        kwargs_constraints_updated = self.kwargs_constraints.update(kwargs_constraints)
-        kwargs_likelihood_updated = self.kwargs_likelihood.update(kwargs_likelihood)
-        return (
-            kwargs_model_updated,
-            kwargs_constraints_updated,
-            kwargs_likelihood_updated,
-        )
+            kwargs_likelihood = {}
+        self.kwargs_model = {**self.kwargs_model, **kwargs_model}
+        self.kwargs_constraints = {**self.kwargs_constraints, **kwargs_constraints}
+        self.kwargs_likelihood = {**self.kwargs_likelihood, **kwargs_likelihood}
+        return self.kwargs_model, self.kwargs_constraints, self.kwargs_likelihood
 
     def update_limits(
         self,
-- 
2.43.0


From 6100f236df6cf39f7e767878cbc7af0a4c259af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:30 +0000
Subject: [PATCH 41/94] fix: plotting routines do not add defaults to the
 keyword dictionaries of the caller

---
 lenstronomy/Plots/lens_plot.py        | 1 +
 lenstronomy/Plots/multi_patch_plot.py | 8 ++++++++
 lenstronomy/Plots/tracer_plot.py      | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/lenstronomy/Plots/lens_plot.py b/lenstronomy/Plots/lens_plot.py
index 83d7721..48c4557 100644
--- a/lenstronomy/Plots/lens_plot.py
+++ b/lenstronomy/Plots/lens_plot.py
@@ -155,6 +155,7 @@ def lens_model_plot(
     if point_source:
         if kwargs_point_source is None:
             kwargs_point_source = {}
+        kwargs_point_source = dict(kwargs_point_source)
         kwargs_point_source.setdefault("color", "k")
         point_source_plot(
             ax,
diff --git a/lenstronomy/Plots/multi_patch_plot.py b/lenstronomy/Plots/multi_patch_plot.py
index 4d0d49c..02f637e 100644
--- a/lenstronomy/Plots/multi_patch_plot.py
+++ b/lenstronomy/Plots/multi_patch_plot.py
@@ -115,6 +115,7 @@ class MultiPatchPlot(MultiPatchReconstruction):
         :type kwargs_matshow: dict
         :return: matplotlib instance
         """
+        kwargs_colorbar = dict(kwargs_colorbar)
         kwargs_colorbar.setdefault("label", r"log$_{10}$ flux")
         kwargs_matshow.setdefault("cmap", "cubehelix")
 
@@ -163,6 +164,7 @@ class MultiPatchPlot(MultiPatchReconstruction):
         :type kwargs_matshow: dict
         :return: matplotlib instance
         """
+        kwargs_colorbar = dict(kwargs_colorbar)
         kwargs_colorbar.setdefault("label", r"log$_{10}$ flux")
         kwargs_matshow.setdefault("cmap", "cubehelix")
 
@@ -223,6 +225,7 @@ class MultiPatchPlot(MultiPatchReconstruction):
         source, coords = self.source(
             num_pix=num_pix, delta_pix=delta_pix, center=center
         )
+        kwargs_colorbar = dict(kwargs_colorbar)
         kwargs_colorbar.setdefault("label", r"log$_{10}$ flux")
         kwargs_matshow.setdefault("cmap", "cubehelix")
 
@@ -280,6 +283,7 @@ class MultiPatchPlot(MultiPatchReconstruction):
         :type kwargs_matshow: dict
         :return: matplotlib instance
         """
+        kwargs_colorbar = dict(kwargs_colorbar)
         kwargs_colorbar.setdefault(
             "label", r"(f$_{\rm data}$ - f$_{\rm model}$)/$\sigma$"
         )
@@ -339,7 +343,9 @@ class MultiPatchPlot(MultiPatchReconstruction):
         :type kwargs_matshow: dict
         :return: matplotlib instance
         """
+        kwargs_colorbar = dict(kwargs_colorbar)
         kwargs_colorbar.setdefault("label", r"$\log_{10}\ \kappa$")
+        kwargs_title = dict(kwargs_title)
         kwargs_title.setdefault("text", "Convergence")
         kwargs_matshow.setdefault("cmap", "gist_heat")
 
@@ -400,7 +406,9 @@ class MultiPatchPlot(MultiPatchReconstruction):
         :type kwargs_matshow: dict
         :return: matplotlib instance
         """
+        kwargs_colorbar = dict(kwargs_colorbar)
         kwargs_colorbar.setdefault("label", r"$\det\ (\mathsf{A}^{-1})$")
+        kwargs_title = dict(kwargs_title)
         kwargs_title.setdefault("text", "Magnification")
         kwargs_matshow.setdefault("cmap", "RdYlBu_r")
 
diff --git a/lenstronomy/Plots/tracer_plot.py b/lenstronomy/Plots/tracer_plot.py
index ac25e30..ec6055b 100644
--- a/lenstronomy/Plots/tracer_plot.py
+++ b/lenstronomy/Plots/tracer_plot.py
@@ -774,6 +774,7 @@ class TracerPlot(object):
         divider = make_axes_locatable(ax)
         cax = divider.append_axes("right", size="5%", pad=0.05)
         cb = plt.colorbar(im, cax=cax)
+        kwargs_colorbar = dict(kwargs_colorbar)
         kwargs_colorbar.setdefault("label", r"tracer")
         plot_util.show_colorbar(
             cb,
@@ -917,6 +918,7 @@ class TracerPlot(object):
         divider = make_axes_locatable(ax)
         cax = divider.append_axes("right", size="5%", pad=0.05)
         cb = plt.colorbar(im, cax=cax)
+        kwargs_colorbar = dict(kwargs_colorbar)
         kwargs_colorbar.setdefault("label", r"$\det\ (\mathsf{A}^{-1})$")
         plot_util.show_colorbar(
             cb,
@@ -1028,6 +1030,7 @@ class TracerPlot(object):
         divider = make_axes_locatable(ax)
         cax = divider.append_axes("right", size="5%", pad=0.05)
         cb = plt.colorbar(im, cax=cax)
+        kwargs_colorbar = dict(kwargs_colorbar)
         kwargs_colorbar.setdefault("label", r"arcsec")
         plot_util.show_colorbar(
             cb,
-- 
2.43.0


From e2151faf0f74210dca7cb30df960264c14c76750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:05 +0000
Subject: [PATCH 42/94] fix: loading starlet light profiles does not write into
 the profile_kwargs of the caller

---
 lenstronomy/LightModel/light_model_base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LightModel/light_model_base.py b/lenstronomy/LightModel/light_model_base.py
index c8095fc..08704c6 100644
--- a/lenstronomy/LightModel/light_model_base.py
+++ b/lenstronomy/LightModel/light_model_base.py
@@ -196,13 +196,16 @@ class LightModelBase(object):
             elif profile_type == "SLIT_STARLETS":
                 from lenstronomy.LightModel.Profiles.starlets import SLIT_Starlets
 
-                profile_kwargs["fast_inverse"] = True
-                profile_kwargs["second_gen"] = False
+                profile_kwargs = {
+                    **profile_kwargs,
+                    "fast_inverse": True,
+                    "second_gen": False,
+                }
                 self.func_list.append(SLIT_Starlets(**profile_kwargs))
             elif profile_type == "SLIT_STARLETS_GEN2":
                 from lenstronomy.LightModel.Profiles.starlets import SLIT_Starlets
 
-                profile_kwargs["second_gen"] = True
+                profile_kwargs = {**profile_kwargs, "second_gen": True}
                 self.func_list.append(SLIT_Starlets(**profile_kwargs))
             elif profile_type == "LINEAR":
                 from lenstronomy.LightModel.Profiles.linear import Linear
-- 
2.43.0


From fd29c3a916c165c31e1df8413e95daf03d319b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:05 +0000
Subject: [PATCH 43/94] fix: NFW.h_ does not clip the radii of the caller in
 place

---
 lenstronomy/LensModel/Profiles/nfw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/nfw.py b/lenstronomy/LensModel/Profiles/nfw.py
index ccba0e2..1eef5fb 100644
--- a/lenstronomy/LensModel/Profiles/nfw.py
+++ b/lenstronomy/LensModel/Profiles/nfw.py
@@ -481,7 +481,7 @@ class NFW(LensProfileBase):
                 a = np.log(X / 2.0) ** 2 + np.arccos(1.0 / X) ** 2
         else:
             a = np.empty_like(X)
-            X[X <= c] = 0.000001
+            X = np.where(X <= c, c, X)
             x = X[X < 1]
             a[X < 1] = np.log(x / 2.0) ** 2 - np.arccosh(1.0 / x) ** 2
             x = X[X >= 1]
-- 
2.43.0


From 8abf36dbe646f309a435b8acdf33ae2ac2187b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:06 +0000
Subject: [PATCH 44/94] fix: enclosed 3d mass of TNFW for scale radii other
 than one (truncation radius in units of Rs)

---
 lenstronomy/LensModel/Profiles/tnfw.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/tnfw.py b/lenstronomy/LensModel/Profiles/tnfw.py
index 8c3e130..5e10ea4 100644
--- a/lenstronomy/LensModel/Profiles/tnfw.py
+++ b/lenstronomy/LensModel/Profiles/tnfw.py
@@ -206,17 +206,18 @@ class TNFW(LensProfileBase):
 
         x = r * Rs**-1
         x = np.maximum(x, self._s)
+        tau = r_trunc / Rs
         func = (
-            r_trunc**2
+            tau**2
             * (
-                -2 * x * (1 + r_trunc**2)
-                + 4 * (1 + x) * r_trunc * np.arctan(x / r_trunc)
-                - 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs)
-                + 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs * (1 + x))
-                + 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs * r_trunc)
-                - (1 + x) * (-1 + r_trunc**2) * np.log(Rs**2 * (x**2 + r_trunc**2))
+                -2 * x * (1 + tau**2)
+                + 4 * (1 + x) * tau * np.arctan(x / tau)
+                - 2 * (1 + x) * (-1 + tau**2) * np.log(Rs)
+                + 2 * (1 + x) * (-1 + tau**2) * np.log(Rs * (1 + x))
+                + 2 * (1 + x) * (-1 + tau**2) * np.log(Rs * tau)
+                - (1 + x) * (-1 + tau**2) * np.log(Rs**2 * (x**2 + tau**2))
             )
-        ) / (2.0 * (1 + x) * (1 + r_trunc**2) ** 2)
+        ) / (2.0 * (1 + x) * (1 + tau**2) ** 2)
 
         m_3d = 4 * np.pi * Rs**3 * rho0 * func
         return m_3d
-- 
2.43.0


From 9ca565bcc26bf636f1440c8bfc4d4c658d593719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:10 +0000
Subject: [PATCH 45/94] fix: distance modulus in absolute2apparent_magnitude
 (factor 5)

---
 lenstronomy/Util/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/data_util.py b/lenstronomy/Util/data_util.py
index 77da0dd..628b0bf 100644
--- a/lenstronomy/Util/data_util.py
+++ b/lenstronomy/Util/data_util.py
@@ -80,7 +80,7 @@ def absolute2apparent_magnitude(absolute_magnitude, d_parsec):
     :param d_parsec: distance to object in units parsec
     :return: apparent magnitude
     """
-    m_apparent = 5.8 * (np.log10(d_parsec) - 1) + absolute_magnitude
+    m_apparent = 5.0 * (np.log10(d_parsec) - 1) + absolute_magnitude
     return m_apparent
 
 
-- 
2.43.0


From f0d9ed9f6e228b86900094724761de0be256cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:10 +0000
Subject: [PATCH 46/94] fix: polar2cart adds the rotation point, so that it
 inverts cart2polar

---
 lenstronomy/Util/param_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/param_util.py b/lenstronomy/Util/param_util.py
index 32fbec0..33d83c4 100644
--- a/lenstronomy/Util/param_util.py
+++ b/lenstronomy/Util/param_util.py
@@ -44,7 +44,7 @@ def polar2cart(r, phi, center):
     """
     x = r * np.cos(phi)
     y = r * np.sin(phi)
-    return x - center[0], y - center[1]
+    return x + center[0], y + center[1]
 
 
 @export
-- 
2.43.0


From 5e4f3074ab121db343a1ca5dfdcd19089dc0a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:34 +0000
Subject: [PATCH 47/94] fix: RegularGrid evaluates the sub-pixels of the pixels
 selected by flux_evaluate_indexes

---
 lenstronomy/ImSim/Numerics/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index df0cfce..c4d329b 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -284,7 +284,7 @@ class RegularGrid(Coordinates1D):
         :return: 1d array of equivalent mask in subgrid resolution
         """
         idex_sub = np.repeat(idex_mask, subgrid_res, axis=0)
-        idex_sub = util.array2image(idex_sub, nx=nx, ny=ny * subgrid_res)
+        idex_sub = util.array2image(idex_sub, nx=nx * subgrid_res, ny=ny)
         idex_sub = np.repeat(idex_sub, subgrid_res, axis=0)
         idex_sub = util.image2array(idex_sub)
         return idex_sub
-- 
2.43.0


From 780c5be191b2f0c7b568e8218d055e63517d828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:34 +0000
Subject: [PATCH 48/94] fix: AdaptiveGrid accepts the documented 2d
 flux_evaluate_indexes

---
 lenstronomy/ImSim/Numerics/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index c4d329b..8d05deb 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -41,6 +41,8 @@ class AdaptiveGrid(Coordinates1D):
         self._x_grid, self._y_grid = self.coordinate_grid(nx, ny)
         if flux_evaluate_indexes is None:
             flux_evaluate_indexes = np.ones_like(self._x_grid, dtype=bool)
+        else:
+            flux_evaluate_indexes = util.image2array(flux_evaluate_indexes)
         supersampled_indexes1d = util.image2array(supersampling_indexes)
         self._high_res_indexes1d = (supersampled_indexes1d) & (flux_evaluate_indexes)
         self._low_res_indexes1d = (np.invert(supersampled_indexes1d)) & (
-- 
2.43.0


From 297b31f82b07bf0b955deabd0012bbc9266bef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:35 +0000
Subject: [PATCH 49/94] fix: NumericsSubFrame places the sub-frame at the
 coordinates of the selected pixels

---
 lenstronomy/ImSim/Numerics/numerics_subframe.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/numerics_subframe.py b/lenstronomy/ImSim/Numerics/numerics_subframe.py
index 2d450ff..c25a866 100644
--- a/lenstronomy/ImSim/Numerics/numerics_subframe.py
+++ b/lenstronomy/ImSim/Numerics/numerics_subframe.py
@@ -132,10 +132,10 @@ class NumericsSubFrame(PointSourceRendering):
         :return: 2d numpy array of size of image with added zeros on their edges
         """
         if self._subframe_calc is True:
-            image = np.zeros((self._nx, self._ny))
+            image = np.zeros((self._ny, self._nx))
             image[
-                self._x_min_sub : self._x_max_sub + 1,
                 self._y_min_sub : self._y_max_sub + 1,
+                self._x_min_sub : self._x_max_sub + 1,
             ] = image_sub_frame
         else:
             image = image_sub_frame
@@ -149,10 +149,11 @@ class NumericsSubFrame(PointSourceRendering):
             self._x_max_sub, self._y_max_sub = self._nx, self._ny
         else:
             self._subframe_calc = True
-            self._x_min_sub = np.min(np.where(flux_evaluate_indexes)[0])
-            self._x_max_sub = np.max(np.where(flux_evaluate_indexes)[0])
-            self._y_min_sub = np.min(np.where(flux_evaluate_indexes)[1])
-            self._y_max_sub = np.max(np.where(flux_evaluate_indexes)[1])
+            # the first axis of the image is the y-axis of the pixel grid
+            self._y_min_sub = np.min(np.where(flux_evaluate_indexes)[0])
+            self._y_max_sub = np.max(np.where(flux_evaluate_indexes)[0])
+            self._x_min_sub = np.min(np.where(flux_evaluate_indexes)[1])
+            self._x_max_sub = np.max(np.where(flux_evaluate_indexes)[1])
 
     def _cut_frame(self, image):
         """
@@ -162,8 +163,8 @@ class NumericsSubFrame(PointSourceRendering):
         """
         if self._subframe_calc is True and image is not None:
             return image[
-                self._x_min_sub : self._x_max_sub + 1,
                 self._y_min_sub : self._y_max_sub + 1,
+                self._x_min_sub : self._x_max_sub + 1,
             ]
         else:
             return image
-- 
2.43.0


From fe3d8131e7ac930678827b4eed2b5325a8688d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:35 +0000
Subject: [PATCH 50/94] fix: regular and adaptive grids support rectangular
 (sub-)frames

---
 lenstronomy/ImSim/Numerics/grid.py | 10 +++++++---
 lenstronomy/Util/util.py           | 14 ++++++++------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index 8d05deb..393d065 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -105,7 +105,7 @@ class AdaptiveGrid(Coordinates1D):
         array[self._low_res_indexes1d] = low_res_values
         array_low_res_partial = self._average_subgrid(supersampled_values)
         array[self._high_res_indexes1d] = array_low_res_partial
-        return util.array2image(array)
+        return util.array2image(array, self._nx, self._ny)
 
     def _high_res_image(self, supersampled_values):
         """
@@ -115,8 +115,8 @@ class AdaptiveGrid(Coordinates1D):
         """
         high_res = np.zeros(
             (
-                self._nx * self._supersampling_factor,
                 self._ny * self._supersampling_factor,
+                self._nx * self._supersampling_factor,
             )
         )
         count = 0
@@ -220,7 +220,11 @@ class RegularGrid(Coordinates1D):
         )
 
         x_grid_sub, y_grid_sub = util.make_subgrid(
-            self._x_grid, self._y_grid, self._supersampling_factor
+            self._x_grid,
+            self._y_grid,
+            self._supersampling_factor,
+            nx=self._nx,
+            ny=self._ny,
         )
         self._ra_subgrid = x_grid_sub[self._compute_indexes]
         self._dec_subgrid = y_grid_sub[self._compute_indexes]
diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 45d6ada..2e4e1cd 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -689,24 +689,26 @@ def hyper2F2_array(a, b, c, d, x):
 
 
 @export
-def make_subgrid(ra_coord, dec_coord, subgrid_res=2):
+def make_subgrid(ra_coord, dec_coord, subgrid_res=2, nx=0, ny=0):
     """Return a grid with subgrid resolution.
 
     :param ra_coord:
     :param dec_coord:
     :param subgrid_res:
+    :param nx: number of pixels in x-axis (not required for a square grid)
+    :param ny: number of pixels in y-axis (not required for a square grid)
     :return:
     """
-    ra_array = array2image(ra_coord)
-    dec_array = array2image(dec_coord)
-    n = len(ra_array)
+    ra_array = array2image(ra_coord, nx, ny)
+    dec_array = array2image(dec_coord, nx, ny)
+    n_y, n_x = ra_array.shape
     d_ra_x = ra_array[0][1] - ra_array[0][0]
     d_ra_y = ra_array[1][0] - ra_array[0][0]
     d_dec_x = dec_array[0][1] - dec_array[0][0]
     d_dec_y = dec_array[1][0] - dec_array[0][0]
 
-    ra_array_new = np.zeros((n * subgrid_res, n * subgrid_res))
-    dec_array_new = np.zeros((n * subgrid_res, n * subgrid_res))
+    ra_array_new = np.zeros((n_y * subgrid_res, n_x * subgrid_res))
+    dec_array_new = np.zeros((n_y * subgrid_res, n_x * subgrid_res))
     for i in range(0, subgrid_res):
         for j in range(0, subgrid_res):
             ra_array_new[i::subgrid_res, j::subgrid_res] = (
-- 
2.43.0


From 7664cbda32e78724e080189af5df697814008b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:35 +0000
Subject: [PATCH 51/94] fix: PartialImage keeps the shape of rectangular images

---
 lenstronomy/ImSim/Numerics/partial_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/partial_image.py b/lenstronomy/ImSim/Numerics/partial_image.py
index e565721..c6a37be 100644
--- a/lenstronomy/ImSim/Numerics/partial_image.py
+++ b/lenstronomy/ImSim/Numerics/partial_image.py
@@ -14,7 +14,7 @@ class PartialImage(object):
         :param partial_read_bools: 2d numpy array of bools indicating which indexes to be processed
         """
         self._partial_read_bools = np.array(partial_read_bools, dtype=bool)
-        self._nx, self._ny = np.shape(partial_read_bools)
+        self._ny, self._nx = np.shape(partial_read_bools)
         self._partial_read_bools_array = util.image2array(partial_read_bools)
         self._num_partial = int(np.sum(self._partial_read_bools_array))
 
-- 
2.43.0


From 88d9895fd8623d819710c5322f48e37225225e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:33 +0000
Subject: [PATCH 52/94] fix: default supersampled_indexes have the shape of the
 image

---
 lenstronomy/ImSim/Numerics/numerics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/numerics.py b/lenstronomy/ImSim/Numerics/numerics.py
index 5269ee7..8b3dc4e 100644
--- a/lenstronomy/ImSim/Numerics/numerics.py
+++ b/lenstronomy/ImSim/Numerics/numerics.py
@@ -80,7 +80,7 @@ class Numerics(PointSourceRendering):
         transform_pix2angle = pixel_grid.transform_pix2angle
         ra_at_xy_0, dec_at_xy_0 = pixel_grid.radec_at_xy_0
         if supersampled_indexes is None:
-            supersampled_indexes = np.zeros((nx, ny), dtype=bool)
+            supersampled_indexes = np.zeros((ny, nx), dtype=bool)
         if (
             compute_mode == "adaptive"
         ):  # or (compute_mode == 'regular' and supersampling_convolution is False and supersampling_factor > 1):
-- 
2.43.0


From a3eff2bf19e5f32e1febdd648ebf528c863d7cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:33 +0000
Subject: [PATCH 53/94] fix: update_data rejects data differing from the old
 shape in one axis

---
 lenstronomy/Data/imaging_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/imaging_data.py b/lenstronomy/Data/imaging_data.py
index 88a2ff3..fd6a5b6 100644
--- a/lenstronomy/Data/imaging_data.py
+++ b/lenstronomy/Data/imaging_data.py
@@ -142,7 +142,7 @@ class ImageData(PixelGrid, ImageNoise, AngularSensitivity):
         :return: None
         """
         ny, nx = np.shape(image_data)
-        if not self._nx == nx and not self._ny == ny:
+        if not self._nx == nx or not self._ny == ny:
             raise ValueError(
                 "shape of new data %s %s must equal old data %s %s!"
                 % (nx, ny, self._nx, self._ny)
-- 
2.43.0


From 032e2e6f60294239e24cec060a2597d8398a9524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:12 +0000
Subject: [PATCH 54/94] fix: image model of rectangular data has the shape of
 the data

---
 lenstronomy/ImSim/Numerics/point_source_rendering.py |  4 ++--
 lenstronomy/ImSim/image_model.py                     | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/point_source_rendering.py b/lenstronomy/ImSim/Numerics/point_source_rendering.py
index 49b37ab..c3a708d 100644
--- a/lenstronomy/ImSim/Numerics/point_source_rendering.py
+++ b/lenstronomy/ImSim/Numerics/point_source_rendering.py
@@ -44,7 +44,7 @@ class PointSourceRendering(object):
         else:
             kernel_point_source_subgrid = self._kernel_supersampled
         # initialize grid with higher resolution
-        subgrid2d = np.zeros((self._nx * subgrid, self._ny * subgrid))
+        subgrid2d = np.zeros((self._ny * subgrid, self._nx * subgrid))
         # add_layer2image
         if len(x_pos) > len(amp):
             raise ValueError(
@@ -123,7 +123,7 @@ class PointSourceRendering(object):
         # render the unconvolved point source using a PSF of [[0, 0, 0], [0, 1, 0], [0, 0, 0]].
         kernel_point_source_for_unconcolved_image = np.zeros((3, 3))
         kernel_point_source_for_unconcolved_image[1, 1] = 1
-        grid2d = np.zeros((self._nx, self._ny))
+        grid2d = np.zeros((self._ny, self._nx))
         # add_layer2image
         if len(x_pos) > len(amp):
             raise ValueError(
diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index eaf0213..3e2e777 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -88,7 +88,7 @@ class ImageModel(object):
         )
         self._psf_error_map = self.PSF.psf_variance_map_bool
         if likelihood_mask is None:
-            likelihood_mask = np.ones(data_class.num_pixel_axes)
+            likelihood_mask = np.ones(data_class.num_pixel_axes[::-1])
         self.likelihood_mask = np.array(likelihood_mask, dtype=bool)
         self._mask1d = util.image2array(self.likelihood_mask)
 
@@ -299,7 +299,7 @@ class ImageModel(object):
             kwargs_special=kwargs_special, model_index=self.image_index
         )
         if len(self.SourceModel.profile_type_list) == 0:
-            return np.zeros(self.Data.num_pixel_axes)
+            return np.zeros(self.Data.num_pixel_axes[::-1])
         if self._pixelbased_bool is True:
             return self._source_surface_brightness_pixelbased(
                 kwargs_source,
@@ -568,7 +568,7 @@ class ImageModel(object):
         self.update_pixel_grid_coordinates(
             kwargs_special=kwargs_special, model_index=self.image_index
         )
-        point_source_image = np.zeros((self.Data.num_pixel_axes))
+        point_source_image = np.zeros(self.Data.num_pixel_axes[::-1])
         if self.PointSource is None:
             return point_source_image
         ra_pos, dec_pos, amp = self.PointSource.point_source_list(
@@ -629,7 +629,7 @@ class ImageModel(object):
         self.update_pixel_grid_coordinates(
             kwargs_special=kwargs_special, model_index=self.image_index
         )
-        model = np.zeros(self.Data.num_pixel_axes)
+        model = np.zeros(self.Data.num_pixel_axes[::-1])
         if source_add is True:
             model += ImageModel.source_surface_brightness(
                 self,
@@ -820,7 +820,7 @@ class ImageModel(object):
         :param kwargs_special: special parameter keyword arguments
         :return: 2d array of size of the image
         """
-        error_map = np.zeros(self.Data.num_pixel_axes)
+        error_map = np.zeros(self.Data.num_pixel_axes[::-1])
         if self._psf_error_map is True:
             for k, bool_ in enumerate(self._psf_error_map_bool_list):
                 if bool_ is True:
-- 
2.43.0


From 1c4f90c310e39445246e3f3bea86729825980ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:12 +0000
Subject: [PATCH 55/94] fix: ImageModel.update_data uses the coordinate grid of
 the new data

---
 lenstronomy/ImSim/image_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 3e2e777..e20f591 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -743,7 +743,10 @@ class ImageModel(object):
         :return: no return. Class is updated.
         """
         self.Data = data_class
-        self.ImageNumerics._PixelGrid = data_class
+        self.PSF.set_pixel_size(self.Data.pixel_width)
+        self.ImageNumerics = NumericsSubFrame(
+            pixel_grid=self.Data, psf=self.PSF, **self._kwargs_numerics
+        )
 
     @property
     def num_data_evaluate(self):
-- 
2.43.0


From 26545235bd03067d4d134492595d5b7c5b3a535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:05 +0000
Subject: [PATCH 56/94] fix: PSF returns the normalised kernel when the initial
 supersampling is requested again

---
 lenstronomy/Data/psf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 6602610..0eea1e7 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -63,8 +63,7 @@ class PSF(object):
                 raise ValueError(
                     "kernel_point_source needs to be specified for PIXEL PSF type!"
                 )
-            # store the initial input PSF and supersampling factor
-            self._kernel_point_source_init = np.array(kernel_point_source)
+            # store the initial supersampling factor
             self._point_source_supersampling_factor_init = (
                 point_source_supersampling_factor
             )
@@ -78,6 +77,8 @@ class PSF(object):
                 kernel_point_source_ = copy.deepcopy(kernel_point_source)
             if kernel_point_source_normalisation is True:
                 kernel_point_source_ /= np.sum(kernel_point_source_)
+            # store the initial PSF (odd and normalised)
+            self._kernel_point_source_init = np.array(kernel_point_source_)
             if point_source_supersampling_factor > 1:
                 self._kernel_point_source_supersampled = kernel_point_source_
                 self._point_source_supersampling_factor = (
-- 
2.43.0


From 9d925831b1ce999aea793ea6c75424eaec34ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:05 +0000
Subject: [PATCH 57/94] fix: PSF.set_pixel_size drops the supersampled Gaussian
 kernel of the old pixel size

---
 lenstronomy/Data/psf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 0eea1e7..12e8f11 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -250,6 +250,10 @@ class PSF(object):
                 del self._kernel_point_source
             except:
                 pass
+            try:
+                del self._kernel_point_source_supersampled
+            except:
+                pass
 
     @property
     def psf_variance_map(self):
-- 
2.43.0


From 3a9728882504eb0e77f8f8f5bdc969a5b1ca3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:05 +0000
Subject: [PATCH 58/94] fix: subgrid_kernel keeps the norm of the kernel and
 does not depend on it otherwise

---
 lenstronomy/Util/kernel_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index ef60239..838bfd9 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -178,7 +178,7 @@ def subgrid_kernel(kernel, subgrid_res, odd=False, num_iter=100):
             kernel_pixel = averaging_even_kernel(kernel_subgrid, subgrid_res)
         else:
             kernel_pixel = util.averaging(kernel_subgrid, num_grid=nx_new, num_pix=nx)
-        delta = kernel - kernel_pixel
+        delta = kernel / norm_kernel - kernel_pixel
         temp_kernel = kernel_input + delta
         kernel_subgrid = image_util.re_size_array(
             x_in, y_in, temp_kernel, x_out, y_out
@@ -192,7 +192,7 @@ def subgrid_kernel(kernel, subgrid_res, odd=False, num_iter=100):
     # print(np.shape(kernel_subgrid))
     # whatever has not been matched is added to zeroth order (in squares of the undersampled PSF)
     if subgrid_res % 2 == 0:
-        return kernel_subgrid
+        return kernel_subgrid * norm_kernel
     kernel_pixel = util.averaging(kernel_subgrid, num_grid=nx_new, num_pix=nx)
     kernel_pixel = kernel_norm(kernel_pixel)
     delta_kernel = kernel_pixel - kernel_norm(kernel)
-- 
2.43.0


From 4a81fcaf602b71fdd14fe9a581f32267333f9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:48 +0000
Subject: [PATCH 59/94] fix: degrade_kernel by an odd factor handles every
 kernel size

---
 lenstronomy/Util/kernel_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 838bfd9..5aacbcc 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -439,7 +439,7 @@ def degrade_kernel(kernel_super, degrading_factor):
 def averaging_odd_kernel(kernel_super, degrading_factor):
     """"""
     n_kernel = len(kernel_super)
-    num_pix = int(round(n_kernel / degrading_factor))
+    num_pix = int(np.ceil(n_kernel / degrading_factor))
     if num_pix % 2 == 0:
         num_pix += 1
     n_high = num_pix * degrading_factor
-- 
2.43.0


From 33b664be2fea8838641f4e0a7be3e5118c2cd1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:48 +0000
Subject: [PATCH 60/94] fix: AdaptiveConvolution without kernel cut works for
 kernels that do not fill full pixels

---
 lenstronomy/ImSim/Numerics/adaptive_numerics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/Numerics/adaptive_numerics.py b/lenstronomy/ImSim/Numerics/adaptive_numerics.py
index 0d4b878..0ee8f29 100644
--- a/lenstronomy/ImSim/Numerics/adaptive_numerics.py
+++ b/lenstronomy/ImSim/Numerics/adaptive_numerics.py
@@ -56,6 +56,7 @@ class AdaptiveConvolution(object):
         n_cut_super = supersampling_kernel_size * supersampling_factor
         if n_cut_super % 2 == 0:
             n_cut_super += 1
+        n_cut_super = min(n_cut_super, len(kernel_super))
         kernel_super_cut = image_util.cut_edges(kernel_super, n_cut_super)
         kernel_cut = kernel_util.degrade_kernel(
             kernel_super_cut, degrading_factor=supersampling_factor
-- 
2.43.0


From ff0ce0421f82e34b98a011680340d8558a4cf8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:19 +0000
Subject: [PATCH 61/94] fix: ImageData accepts the primary beam of rectangular
 data

---
 lenstronomy/Data/imaging_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/imaging_data.py b/lenstronomy/Data/imaging_data.py
index fd6a5b6..7c16578 100644
--- a/lenstronomy/Data/imaging_data.py
+++ b/lenstronomy/Data/imaging_data.py
@@ -116,7 +116,7 @@ class ImageData(PixelGrid, ImageNoise, AngularSensitivity):
             flux_scaling=flux_scaling,
         )
         if antenna_primary_beam is not None:
-            pbx, pby = np.shape(antenna_primary_beam)
+            pby, pbx = np.shape(antenna_primary_beam)
             if (pbx, pby) != (nx, ny):
                 raise ValueError(
                     "The primary beam should have the same size with the image data!"
-- 
2.43.0


From 605278520875693eae1bf8b5605814d217b3f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:53 +0000
Subject: [PATCH 62/94] fix: linear response of images with a primary beam
 contains the primary beam

---
 lenstronomy/ImSim/image_linear_solve.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index 1c51a34..94ca5c1 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -391,9 +391,15 @@ class ImageLinearFit(ImageModel):
         num_response = self.num_data_evaluate
         A = np.zeros((num_param, num_response))
         n = 0
+        # with natural weighting the primary beam enters in linear_response_matrix_interferometry_unconvolved()
+        apply_pb = (
+            self._pb is not None and self.Data.likelihood_method() == "diagonal"
+        )
         # response of lensed source profile
         for i in range(0, n_source):
             image = source_light_response[i]
+            if apply_pb:
+                image = image * self._pb_1d
             image *= extinction
             image = self.ImageNumerics.re_size_convolve(image, unconvolved=unconvolved)
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
@@ -401,13 +407,20 @@ class ImageLinearFit(ImageModel):
         # response of deflector light profile (or any other un-lensed extended components)
         for i in range(0, n_lens_light):
             image = lens_light_response[i]
+            if apply_pb:
+                image = image * self._pb_1d
             image = self.ImageNumerics.re_size_convolve(image, unconvolved=unconvolved)
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
             n += 1
         # response of point sources
         for i in range(0, n_points):
+            amp_i = amp[i]
+            if apply_pb:
+                amp_i = amp_i * self._point_source_primary_beam_amp_normalization(
+                    ra_pos[i], dec_pos[i]
+                )
             image = self.ImageNumerics.point_source_rendering(
-                ra_pos[i], dec_pos[i], amp[i]
+                ra_pos[i], dec_pos[i], amp_i
             )
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
             n += 1
-- 
2.43.0


From 3d2d52e80936f7e83a3cb337d6721e459aef1f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:45 +0000
Subject: [PATCH 63/94] fix: image_flux_joint selects the source component by
 its own index with several lens planes

---
 lenstronomy/ImSim/image2source_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index 2cb55e3..19f93a8 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -301,7 +301,7 @@ class Image2SourceMapping(object):
                             T_ij_end=T_ij_end,
                         )
 
-                    if k is None or k == i:
+                    if k is None or k == index_source:
                         flux += self._light_model.surface_brightness(
                             x_source, y_source, kwargs_source, k=index_source
                         )
-- 
2.43.0


From a81c17f07f272a47d83bcbad03e902f24a84e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:24 +0000
Subject: [PATCH 64/94] fix: variance_map of a band uses the models of the band

---
 .../MultiBand/single_band_multi_model.py      | 44 +++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
index 746f001..c982095 100644
--- a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
+++ b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
@@ -381,6 +381,50 @@ class SingleBandMultiModel(ImageLinearFit, ImageModel):
             param = None
         return logL, param
 
+    def variance_map(
+        self,
+        kwargs_lens=None,
+        kwargs_source=None,
+        kwargs_lens_light=None,
+        kwargs_ps=None,
+        kwargs_extinction=None,
+        kwargs_special=None,
+    ):
+        """Variance per pixel of the image of this band, see
+        ImageModel.variance_map().
+
+        :param kwargs_lens: list of keyword arguments corresponding to the superposition
+            of different lens profiles
+        :param kwargs_source: list of keyword arguments corresponding to the
+            superposition of different source light profiles
+        :param kwargs_lens_light: list of keyword arguments corresponding to different
+            lens light surface brightness profiles
+        :param kwargs_ps: keyword arguments corresponding to "other" parameters, such as
+            external shear and point source image positions
+        :param kwargs_extinction: list of keyword arguments of the extinction model
+        :param kwargs_special: additional parameters to be passed to the extinction and
+            astrometry
+        :return: 2d array of the variance
+        """
+        (
+            kwargs_lens_i,
+            kwargs_source_i,
+            kwargs_lens_light_i,
+            kwargs_ps_i,
+            kwargs_extinction_i,
+        ) = self.select_kwargs(
+            kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps, kwargs_extinction
+        )
+        return ImageModel.variance_map(
+            self,
+            kwargs_lens_i,
+            kwargs_source_i,
+            kwargs_lens_light_i,
+            kwargs_ps_i,
+            kwargs_extinction_i,
+            kwargs_special,
+        )
+
     def update_linear_kwargs(
         self,
         param,
-- 
2.43.0


From e46b350c79ec4e8875f966c21fa112d309cb87a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:28 +0000
Subject: [PATCH 65/94] fix: estimate_amp respects both axes of rectangular
 data

---
 lenstronomy/Util/kernel_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 5aacbcc..58c219f 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -584,7 +584,7 @@ def estimate_amp(data, x_pos, y_pos, psf_kernel):
     :param psf_kernel:
     :return:
     """
-    num_pix_x, num_pix_y = np.shape(data)
+    num_pix_y, num_pix_x = np.shape(data)
     x_int = int(round(x_pos - 0.49999))
     y_int = int(round(y_pos - 0.49999))
     # TODO: make amplitude estimate not susceptible to rounding effects on which pixels to chose to estimate the amplitude
-- 
2.43.0


From 0602f6e8a3d1a8450ef7d44e769a0c020ad12ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:46 +0000
Subject: [PATCH 66/94] fix: astrometric displacements of a selected point
 source model are those of its images

---
 lenstronomy/ImSim/image_model.py | 37 ++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index e20f591..04200dd 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -575,7 +575,12 @@ class ImageModel(object):
             kwargs_ps, kwargs_lens=kwargs_lens, k=k
         )
         ra_pos, dec_pos = self._displace_astrometry(
-            ra_pos, dec_pos, kwargs_special=kwargs_special
+            ra_pos,
+            dec_pos,
+            kwargs_special=kwargs_special,
+            index_start=self._index_displacement(
+                kwargs_ps, kwargs_lens, kwargs_special, k
+            ),
         )
 
         # Scale point source amplitude (amp) by the primary beam response, if applicable.
@@ -832,7 +837,12 @@ class ImageModel(object):
                     )
                     if len(ra_pos) > 0:
                         ra_pos, dec_pos = self._displace_astrometry(
-                            ra_pos, dec_pos, kwargs_special=kwargs_special
+                            ra_pos,
+                            dec_pos,
+                            kwargs_special=kwargs_special,
+                            index_start=self._index_displacement(
+                                kwargs_ps, kwargs_lens, kwargs_special, k
+                            ),
                         )
                         error_map += self.ImageNumerics.psf_variance_map(
                             ra_pos,
@@ -843,8 +853,24 @@ class ImageModel(object):
                         )
         return error_map
 
+    def _index_displacement(self, kwargs_ps, kwargs_lens, kwargs_special, k=None):
+        """Index of the first astrometric displacement of the k-th point source model.
+
+        :param kwargs_ps: point source keyword arguments
+        :param kwargs_lens: lens model keyword arguments
+        :param kwargs_special: keyword arguments, can contain 'delta_x_image' and
+            'delta_y_image'
+        :param k: None for all the models, or index of the point source model
+        :return: number of images of the point source models before the k-th one
+        """
+        if not k or kwargs_special is None or "delta_x_image" not in kwargs_special:
+            return 0
+        ra_list, _ = self.PointSource.image_position(kwargs_ps, kwargs_lens)
+        flux_list = self.PointSource._flux_from_point_source_list
+        return sum(len(ra) for ra, flux in zip(ra_list[:k], flux_list) if flux)
+
     @staticmethod
-    def _displace_astrometry(x_pos, y_pos, kwargs_special=None):
+    def _displace_astrometry(x_pos, y_pos, kwargs_special=None, index_start=0):
         """Displaces point sources by shifts specified in kwargs_special.
 
         :param x_pos: list of point source positions according to point source model
@@ -853,6 +879,7 @@ class ImageModel(object):
             list
         :param kwargs_special: keyword arguments, can contain 'delta_x_image' and
             'delta_y_image' The list is defined in order of the image positions
+        :param index_start: index of the displacement of the first position
         :return: shifted image positions in same format as input
         """
         if kwargs_special is not None:
@@ -861,8 +888,10 @@ class ImageModel(object):
                     kwargs_special["delta_x_image"],
                     kwargs_special["delta_y_image"],
                 )
+                delta_x = delta_x[index_start : index_start + len(x_pos)]
+                delta_y = delta_y[index_start : index_start + len(y_pos)]
                 delta_x_new = np.zeros(len(x_pos))
-                delta_x_new[0 : len(delta_x)] = delta_x[:]
+                delta_x_new[0 : len(delta_x)] = delta_x
                 delta_y_new = np.zeros(len(y_pos))
                 delta_y_new[0 : len(delta_y)] = delta_y
                 x_pos = x_pos + delta_x_new
-- 
2.43.0


From 5a71535106c3dfe1762c498ded871c69042f0c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:26 +0000
Subject: [PATCH 67/94] fix: evaluating a point source leaves the source
 redshift of the lens model unchanged

---
 lenstronomy/PointSource/Types/base_ps.py         | 11 +++++++++++
 lenstronomy/PointSource/Types/lensed_position.py | 12 ++++++++----
 lenstronomy/PointSource/Types/source_position.py |  9 ++++++---
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/PointSource/Types/base_ps.py b/lenstronomy/PointSource/Types/base_ps.py
index cf61233..755f104 100644
--- a/lenstronomy/PointSource/Types/base_ps.py
+++ b/lenstronomy/PointSource/Types/base_ps.py
@@ -104,6 +104,17 @@ class PSBase(object):
             "source_position definition is not defined in the profile you want to execute."
         )
 
+    def _set_source_redshift(self, z_source):
+        """Sets the source redshift of the lens model.
+
+        :param z_source: source redshift, or None to leave it unchanged
+        :return: source redshift of the lens model before this call, to be restored
+            after the point source is evaluated
+        """
+        z_source_previous = self._lens_model.z_source
+        self._lens_model.change_source_redshift(z_source)
+        return z_source_previous
+
     def update_lens_model(self, lens_model_class):
         """Update LensModel() and LensEquationSolver() instance.
 
diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 0561e44..980bf73 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -51,7 +51,7 @@ class LensedPositions(PSBase):
                 kwargs_lens_eqn_solver = {}
             ra_source, dec_source = self.source_position(kwargs_ps, kwargs_lens)
             # TODO: this solver does not distinguish between different frames/bands with partial lens models
-            self._solver.change_source_redshift(self._redshift)
+            z_source = self._set_source_redshift(self._redshift)
             ra_image, dec_image = self._solver.image_position_from_source(
                 ra_source,
                 dec_source,
@@ -59,6 +59,7 @@ class LensedPositions(PSBase):
                 magnification_limit=magnification_limit,
                 **kwargs_lens_eqn_solver
             )
+            self._set_source_redshift(z_source)
         else:
             ra_image = kwargs_ps["ra_image"]
             dec_image = kwargs_ps["dec_image"]
@@ -74,7 +75,7 @@ class LensedPositions(PSBase):
         """
         ra_image = kwargs_ps["ra_image"]
         dec_image = kwargs_ps["dec_image"]
-        self._lens_model.change_source_redshift(self._redshift)
+        z_source = self._set_source_redshift(self._redshift)
 
         if self.k_list is None:
             x_source, y_source = self._lens_model.ray_shooting(
@@ -88,6 +89,7 @@ class LensedPositions(PSBase):
                 )
                 x_source.append(x)
                 y_source.append(y)
+        self._set_source_redshift(z_source)
         x_source = np.mean(x_source)
         y_source = np.mean(y_source)
         return np.array(x_source), np.array(y_source)
@@ -116,8 +118,8 @@ class LensedPositions(PSBase):
             details
         :return: array of image amplitudes
         """
-        self._lens_model.change_source_redshift(self._redshift)
         if self._fixed_magnification:
+            z_source = self._set_source_redshift(self._redshift)
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
             else:
@@ -138,6 +140,7 @@ class LensedPositions(PSBase):
                             ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
                         )
                     )
+            self._set_source_redshift(z_source)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
         else:
             point_amp = kwargs_ps["point_amp"]
@@ -158,7 +161,7 @@ class LensedPositions(PSBase):
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            self._lens_model.change_source_redshift(self._redshift)
+            z_source = self._set_source_redshift(self._redshift)
             ra_image, dec_image = np.array(kwargs_ps["ra_image"]), np.array(
                 kwargs_ps["dec_image"]
             )
@@ -172,6 +175,7 @@ class LensedPositions(PSBase):
                             ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
                         )
                     )
+            self._set_source_redshift(z_source)
             point_amp = kwargs_ps["point_amp"]
             source_amp = np.mean(np.array(point_amp) / np.array(np.abs(mag)))
         return np.array(source_amp)
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index eca7c12..d70a5e0 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -45,7 +45,7 @@ class SourcePositions(PSBase):
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
         ra_source, dec_source = self.source_position(kwargs_ps)
-        self._solver.change_source_redshift(self._redshift)
+        z_source = self._set_source_redshift(self._redshift)
         ra_image, dec_image = self._solver.image_position_from_source(
             ra_source,
             dec_source,
@@ -53,6 +53,7 @@ class SourcePositions(PSBase):
             magnification_limit=magnification_limit,
             **kwargs_lens_eqn_solver
         )
+        self._set_source_redshift(z_source)
         return ra_image, dec_image
 
     def source_position(self, kwargs_ps, **kwargs):
@@ -90,7 +91,7 @@ class SourcePositions(PSBase):
         :return: array of image amplitudes
         """
         if self._fixed_magnification:
-            self._lens_model.change_source_redshift(self._redshift)
+            z_source = self._set_source_redshift(self._redshift)
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
             else:
@@ -103,6 +104,7 @@ class SourcePositions(PSBase):
                     **kwargs_lens_eqn_solver
                 )
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
+            self._set_source_redshift(z_source)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
         else:
             point_amp = kwargs_ps["point_amp"]
@@ -126,9 +128,10 @@ class SourcePositions(PSBase):
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            self._lens_model.change_source_redshift(self._redshift)
+            z_source = self._set_source_redshift(self._redshift)
             ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
+            self._set_source_redshift(z_source)
             point_amp = kwargs_ps["point_amp"]
             source_amp = np.mean(np.array(point_amp) / np.array(mag))
         return np.array(source_amp)
-- 
2.43.0


From 037f4998c8e5eb5ff178e2c902cc36de5f93342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:26 +0000
Subject: [PATCH 68/94] fix: source amplitude of SOURCE_POSITION is that of the
 absolute magnification

---
 lenstronomy/PointSource/Types/source_position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index d70a5e0..d212bc7 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -133,5 +133,5 @@ class SourcePositions(PSBase):
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             self._set_source_redshift(z_source)
             point_amp = kwargs_ps["point_amp"]
-            source_amp = np.mean(np.array(point_amp) / np.array(mag))
+            source_amp = np.mean(np.array(point_amp) / np.array(np.abs(mag)))
         return np.array(source_amp)
-- 
2.43.0


From 939167d68bd05d77fc6363c07235f6b7fee21148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:26 +0000
Subject: [PATCH 69/94] fix: SourcePositions.image_amplitude uses the settings
 of the lens equation solver

---
 lenstronomy/PointSource/Types/source_position.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index d212bc7..d01aaae 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -95,13 +95,11 @@ class SourcePositions(PSBase):
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
             else:
-                if kwargs_lens_eqn_solver is None:
-                    kwargs_lens_eqn_solver = {}
                 ra_image, dec_image = self.image_position(
                     kwargs_ps,
                     kwargs_lens=kwargs_lens,
                     magnification_limit=magnification_limit,
-                    **kwargs_lens_eqn_solver
+                    kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 )
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             self._set_source_redshift(z_source)
-- 
2.43.0


From d570637d7b8424e2730f5446ce2d2e383f41827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:46 +0000
Subject: [PATCH 70/94] fix: linear response of point sources accounts for
 their redshift, lens frame and magnification perturbation

---
 lenstronomy/PointSource/point_source.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index e1fcffe..9a19c23 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -417,20 +417,26 @@ class PointSource(object):
             if self._flux_from_point_source_list[i]:
                 x_pos = x_image_list[i]
                 y_pos = y_image_list[i]
+                if with_amp:
+                    mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
+                else:
+                    # image amplitudes for a unit amplitude of the linear parameters
+                    kwargs_unit = {
+                        **kwargs_ps[i],
+                        "source_amp": 1,
+                        "point_amp": np.ones(len(x_pos)),
+                    }
+                    mag = model.image_amplitude(
+                        kwargs_unit,
+                        kwargs_lens,
+                        magnification_limit=self._magnification_limit,
+                        kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
+                    )
                 if self._fixed_magnification_list[i]:
                     ra_pos.append(list(x_pos))
                     dec_pos.append(list(y_pos))
-                    if with_amp:
-                        mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
-                    else:
-                        mag = self._lens_model.magnification(x_pos, y_pos, kwargs_lens)
-                        mag = np.abs(mag)
                     amp.append(list(mag))
                 else:
-                    if with_amp:
-                        mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
-                    else:
-                        mag = np.ones_like(x_pos)
                     for j in range(len(x_pos)):
                         ra_pos.append([x_pos[j]])
                         dec_pos.append([y_pos[j]])
-- 
2.43.0


From 3f6ed2c45fee73e9890a3bf4fd5c4b0f046029b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:46 +0000
Subject: [PATCH 71/94] fix: image amplitudes of point sources respect the
 magnification limit of the images

---
 lenstronomy/PointSource/point_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 9a19c23..a26d4cc 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -372,6 +372,7 @@ class PointSource(object):
                 image_amp = model.image_amplitude(
                     kwargs_ps=kwargs_ps[i],
                     kwargs_lens=kwargs_lens,
+                    magnification_limit=self._magnification_limit,
                     kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
                 )
                 if self._flux_from_point_source_list[i]:
-- 
2.43.0


From 7a675ae4f804c8a60dd9472965744172de3f94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:41 +0000
Subject: [PATCH 72/94] fix: width_search_factor widens the configured search
 window of the lens equation solver

---
 lenstronomy/PointSource/point_source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index a26d4cc..8a5fb4d 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -269,8 +269,9 @@ class PointSource(object):
         """
         x_image_list = []
         y_image_list = []
-        if width_search_factor != 1 and hasattr(
-            self._kwargs_lens_eqn_solver, "search_window"
+        if (
+            width_search_factor != 1
+            and "search_window" in self._kwargs_lens_eqn_solver
         ):
             kwargs_lens_eqn_solver = copy.deepcopy(self._kwargs_lens_eqn_solver)
             kwargs_lens_eqn_solver["search_window"] *= width_search_factor
-- 
2.43.0


From 3a4ee2b0064e18a4cec525d6e947908965045a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:30 +0000
Subject: [PATCH 73/94] fix: likelihoods of a point source leave the source
 redshift of the lens model unchanged

---
 lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py | 3 +++
 lenstronomy/Sampling/Likelihoods/position_likelihood.py   | 4 ++++
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py b/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
index 81d4234..033283a 100644
--- a/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
@@ -76,6 +76,7 @@ class FluxRatioLikelihood(object):
         for k in range(len(ra_image_list)):
             if self._flux_ratio_measurement_bool[k] is True:
                 x_pos, y_pos = ra_image_list[k], dec_image_list[k]
+                z_source = self._lens_model_class.z_source
                 self._lens_model_class.change_source_redshift(
                     z_source=self._point_source_redshift_list[k]
                 )
@@ -95,6 +96,8 @@ class FluxRatioLikelihood(object):
                         polar_grid=self._polar_grid,
                         aspect_ratio=self._aspect_ratio,
                     )
+                # other source components are not affected by the redshift of this one
+                self._lens_model_class.change_source_redshift(z_source=z_source)
                 if len(mag) - 1 != len(self._flux_ratios[k]):
                     return -(10**15)
                 mag_ratio = mag[1:] / mag[0]
diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index b5f12f1..c28a2db 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -276,6 +276,7 @@ class PositionLikelihood(object):
             ):
                 x_image = kwargs_ps[k]["ra_image"]
                 y_image = kwargs_ps[k]["dec_image"]
+                z_source = self._lensModel.z_source
                 self._lensModel.change_source_redshift(redshift_list[k])
                 # calculating the individual source positions from the image positions
                 k_list = self._pointSource.k_list(k)
@@ -308,9 +309,12 @@ class PositionLikelihood(object):
                     try:
                         Sigma_inv = inv(Sigma_beta)
                     except:
+                        self._lensModel.change_source_redshift(z_source)
                         return -(10**15)
                     chi2 = delta.T.dot(Sigma_inv.dot(delta))
                     logL -= chi2 / 2
+                # other source components are not affected by the redshift of this one
+                self._lensModel.change_source_redshift(z_source)
         return logL
 
     @property
diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index fe9ca38..fad457b 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -143,6 +143,7 @@ class TimeDelayLikelihood(object):
             mask = np.array(self._measurement_bool_list[i])
             if np.any(mask):
                 x_pos_, y_pos_ = x_pos[i], y_pos[i]
+                z_source = self._lensModel.z_source
                 self._lensModel.change_source_redshift(
                     z_source=self._pointSource._redshift_list[i]
                 )
@@ -157,6 +158,8 @@ class TimeDelayLikelihood(object):
                     D_dt_model = kwargs_cosmo["D_dt"]
                     Ddt_scaled = self._lensModel.ddt_scaling * D_dt_model
                     delay_days = const.delay_arcsec2days(delay_arcsec, Ddt_scaled)
+                # other source components are not affected by the redshift of this one
+                self._lensModel.change_source_redshift(z_source=z_source)
                 delay_days *= lambda_mst
                 if self._bimodal_measurement:
                     logL1 = self._log_delay_masked(
-- 
2.43.0


From 0edc4a7172c4c7e7ed060d09d1e3b36e2c86f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:30 +0000
Subject: [PATCH 74/94] fix: source plane covariance of image positions for a
 non-symmetric lensing Jacobian

---
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index c28a2db..303dd1c 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -339,5 +339,5 @@ def image2source_covariance(A, Sigma_theta):
     A: Hessian lensing matrix
     Sigma_theta: image plane covariance matrix of uncertainties
     """
-    ATSigma = np.matmul(A.T, Sigma_theta)
-    return np.matmul(ATSigma, A)
+    ASigma = np.matmul(A, Sigma_theta)
+    return np.matmul(ASigma, A.T)
-- 
2.43.0


From 9104e99ac96956098eaa09b743914f88bb7b71bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:30 +0000
Subject: [PATCH 75/94] fix: number of time delay data counts the measured
 delays

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index fad457b..0a399f8 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -241,4 +241,7 @@ class TimeDelayLikelihood(object):
 
         :return: number of time delay measurements
         """
-        return len(self._delays_measured)
+        return sum(
+            int(np.sum(measurement_bool))
+            for measurement_bool in self._measurement_bool_list
+        )
-- 
2.43.0


From 8c3b207230d9c5d010038f6360cb76ee65651d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:39 +0000
Subject: [PATCH 76/94] fix: 2D kinematics uses the selected lens light
 component

---
 .../Sampling/Likelihoods/kinematic_2D_likelihood.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
index 2073d6a..5e08ea6 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
@@ -156,10 +156,10 @@ class KinLikelihood(object):
         #                                                      kwargs_lens[self._idx_lens]['e2'])
         orientation_mass = kwargs_lens[self._idx_lens]["phi"]
         q_mass = kwargs_lens[self._idx_lens]["q"]
-        # orientation_light, q_light = param_util.ellipticity2phi_q(kwargs_lens_light[self._idx_lens]['e1'],
-        #                                                         kwargs_lens_light[self._idx_lens]['e2'])
-        orientation_light = kwargs_lens_light[self._idx_lens]["phi"]
-        q_light = kwargs_lens_light[self._idx_lens]["q"]
+        # orientation_light, q_light = param_util.ellipticity2phi_q(kwargs_lens_light[self._idx_lens_light]['e1'],
+        #                                                         kwargs_lens_light[self._idx_lens_light]['e2'])
+        orientation_light = kwargs_lens_light[self._idx_lens_light]["phi"]
+        q_light = kwargs_lens_light[self._idx_lens_light]["q"]
 
         same_orientation = True  # confirm that angles are aligned
         if np.abs(orientation_mass - orientation_light) > 0.05:
@@ -177,8 +177,8 @@ class KinLikelihood(object):
                     q_mass,
                     q_light,
                     theta_e_glee,
-                    kwargs_lens_light[self._idx_lens]["n_sersic"],
-                    kwargs_lens_light[self._idx_lens]["R_sersic"],
+                    kwargs_lens_light[self._idx_lens_light]["n_sersic"],
+                    kwargs_lens_light[self._idx_lens_light]["R_sersic"],
                     8.0e-2,
                     gamma_glee,
                     kwargs_special["b_ani"],
-- 
2.43.0


From f73610e5a9bbc32fae6768fb67f8a45b4ebb0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:50 +0000
Subject: [PATCH 77/94] fix: undefined likelihoods are replaced by the intended
 low value

---
 lenstronomy/Sampling/Likelihoods/image_likelihood.py    | 2 +-
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 2 +-
 lenstronomy/Sampling/Likelihoods/tracer_likelihood.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/image_likelihood.py b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
index a16dd7a..d041d19 100644
--- a/lenstronomy/Sampling/Likelihoods/image_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
@@ -82,7 +82,7 @@ class ImageLikelihood(object):
             linear_prior=self._linear_prior,
             check_positive_flux=self._check_positive_flux,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15), param
         return logL, param
 
diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index 303dd1c..6d2a79a 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -199,7 +199,7 @@ class PositionLikelihood(object):
             )
             dist = (delta_x**2 + delta_y**2) / sigma**2 / 2
             logL = -np.sum(dist)
-            if np.isnan(logL) is True:
+            if np.isnan(logL):
                 return -(10**15)
             return logL
         else:
diff --git a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
index c16686f..9932e05 100644
--- a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
@@ -71,7 +71,7 @@ class TracerLikelihood(object):
             kwargs_extinction=kwargs_extinction,
             kwargs_special=kwargs_special,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15)
         return logL
 
-- 
2.43.0


From 5cbe576e07b26551cb070fc86cd9df014abf941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:07 +0000
Subject: [PATCH 78/94] fix: settings of the models of a band follow the
 selection of its models

---
 lenstronomy/Util/class_creator.py | 43 ++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/Util/class_creator.py b/lenstronomy/Util/class_creator.py
index 6ace033..8a158fd 100644
--- a/lenstronomy/Util/class_creator.py
+++ b/lenstronomy/Util/class_creator.py
@@ -144,6 +144,7 @@ def create_class_instances(
         lens_model_list_i = lens_model_list
         lens_redshift_list_i = lens_redshift_list
         observed_convention_index_i = observed_convention_index
+        lens_profile_kwargs_list_i = lens_profile_kwargs_list
     else:
         lens_model_list_i = [
             lens_model_list[k] for k in index_lens_model_list[band_index]
@@ -163,6 +164,9 @@ def create_class_instances(
                 counter += 1
         else:
             observed_convention_index_i = observed_convention_index
+        lens_profile_kwargs_list_i = _select(
+            lens_profile_kwargs_list, index_lens_model_list[band_index]
+        )
 
     lens_model_class = LensModel(
         lens_model_list=lens_model_list_i,
@@ -176,7 +180,7 @@ def create_class_instances(
         cosmology_sampling=cosmology_sampling,
         cosmology_model=cosmology_model,
         observed_convention_index=observed_convention_index_i,
-        profile_kwargs_list=lens_profile_kwargs_list,
+        profile_kwargs_list=lens_profile_kwargs_list_i,
         decouple_multi_plane=decouple_multi_plane,
         kwargs_multiplane_model=kwargs_multiplane_model,
     )
@@ -187,11 +191,11 @@ def create_class_instances(
             z_lens=z_lens,
             z_source=z_source,
             z_source_convention=z_source_convention,
-            lens_redshift_list=lens_redshift_list,
+            lens_redshift_list=lens_redshift_list_i,
             multi_plane=multi_plane,
             cosmo=cosmo,
-            observed_convention_index=observed_convention_index,
-            profile_kwargs_list=lens_profile_kwargs_list,
+            observed_convention_index=observed_convention_index_i,
+            profile_kwargs_list=lens_profile_kwargs_list_i,
             decouple_multi_plane=decouple_multi_plane,
             kwargs_multiplane_model=kwargs_multiplane_model_point_source,
         )
@@ -202,6 +206,7 @@ def create_class_instances(
         source_light_model_list_i = source_light_model_list
         source_deflection_scaling_list_i = source_deflection_scaling_list
         source_redshift_list_i = source_redshift_list
+        source_light_profile_kwargs_list_i = source_light_profile_kwargs_list
     else:
         source_light_model_list_i = [
             source_light_model_list[k]
@@ -221,22 +226,29 @@ def create_class_instances(
                 source_redshift_list[k]
                 for k in index_source_light_model_list[band_index]
             ]
+        source_light_profile_kwargs_list_i = _select(
+            source_light_profile_kwargs_list, index_source_light_model_list[band_index]
+        )
     source_model_class = LightModel(
         light_model_list=source_light_model_list_i,
         deflection_scaling_list=source_deflection_scaling_list_i,
         source_redshift_list=source_redshift_list_i,
-        profile_kwargs_list=source_light_profile_kwargs_list,
+        profile_kwargs_list=source_light_profile_kwargs_list_i,
     )
 
     if index_lens_light_model_list is None or all_models is True:
         lens_light_model_list_i = lens_light_model_list
+        lens_light_profile_kwargs_list_i = lens_light_profile_kwargs_list
     else:
         lens_light_model_list_i = [
             lens_light_model_list[k] for k in index_lens_light_model_list[band_index]
         ]
+        lens_light_profile_kwargs_list_i = _select(
+            lens_light_profile_kwargs_list, index_lens_light_model_list[band_index]
+        )
     lens_light_model_class = LightModel(
         light_model_list=lens_light_model_list_i,
-        profile_kwargs_list=lens_light_profile_kwargs_list,
+        profile_kwargs_list=lens_light_profile_kwargs_list_i,
     )
 
     point_source_model_list_i = point_source_model_list
@@ -296,11 +308,16 @@ def create_class_instances(
             optical_depth_model_list[k]
             for k in index_optical_depth_model_list[band_index]
         ]
+        optical_depth_profile_kwargs_list_i = _select(
+            optical_depth_profile_kwargs_list,
+            index_optical_depth_model_list[band_index],
+        )
     else:
         optical_depth_model_list_i = optical_depth_model_list
+        optical_depth_profile_kwargs_list_i = optical_depth_profile_kwargs_list
     extinction_class = DifferentialExtinction(
         optical_depth_model=optical_depth_model_list_i,
-        profile_kwargs_list=optical_depth_profile_kwargs_list,
+        profile_kwargs_list=optical_depth_profile_kwargs_list_i,
         tau0_index=tau0_index,
     )
     return (
@@ -312,6 +329,18 @@ def create_class_instances(
     )
 
 
+def _select(model_settings, index_list):
+    """Settings of the selected models.
+
+    :param model_settings: None, or list with one entry per model
+    :param index_list: list of indexes of the selected models
+    :return: None, or list of the entries of the selected models
+    """
+    if model_settings is None:
+        return None
+    return [model_settings[k] for k in index_list]
+
+
 @export
 def create_image_model(
     kwargs_data, kwargs_psf, kwargs_numerics, kwargs_model, image_likelihood_mask=None
-- 
2.43.0


From 441dc2a1d8387e9de113ca6dac55b5560842f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:30 +0000
Subject: [PATCH 79/94] fix: joint linear solution accounts for astrometric
 displacements in the model error

---
 lenstronomy/ImSim/MultiBand/joint_linear.py                 | 4 +++-
 lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 3573b02..870126d 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -71,7 +71,9 @@ class JointLinear(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 96a52dc..43cf3c8 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -102,7 +102,9 @@ class JointLinear_VaryBG(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
-- 
2.43.0


From 18dcadb866e3fda65b8219419d68be1f536f8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:30 +0000
Subject: [PATCH 80/94] fix: positive flux check of joint bands applies to the
 joint solution

---
 lenstronomy/ImSim/MultiBand/joint_linear.py              | 9 +++++++++
 .../ImSim/MultiBand/joint_linear_vary_background.py      | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 870126d..1bcbf93 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -2,6 +2,7 @@ from lenstronomy.ImSim.MultiBand.multi_linear import MultiLinear
 import lenstronomy.ImSim.de_lens as de_lens
 
 import numpy as np
+import copy
 
 __all__ = ["JointLinear"]
 
@@ -220,6 +221,14 @@ class JointLinear(MultiLinear):
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
         if check_positive_flux is True and self._num_bands > 0:
+            # the amplitudes to be checked are those of the joint solution
+            _, kwargs_source, kwargs_lens_light, kwargs_ps = self.update_linear_kwargs(
+                param,
+                0,
+                *copy.deepcopy(
+                    (kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps)
+                )
+            )
             bool_ = self._image_model_list[0].check_positive_flux(
                 kwargs_source, kwargs_lens_light, kwargs_ps
             )
diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 43cf3c8..d6c83ec 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -2,6 +2,7 @@ from lenstronomy.ImSim.MultiBand.multi_linear import MultiLinear
 import lenstronomy.ImSim.de_lens as de_lens
 
 import numpy as np
+import copy
 
 __all__ = ["JointLinear_VaryBG"]
 
@@ -257,6 +258,14 @@ class JointLinear_VaryBG(MultiLinear):
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
         if check_positive_flux is True and self._num_bands > 0:
+            # the amplitudes to be checked are those of the joint solution
+            _, kwargs_source, kwargs_lens_light, kwargs_ps = self.update_linear_kwargs(
+                param,
+                0,
+                *copy.deepcopy(
+                    (kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps)
+                )
+            )
             bool_ = self._image_model_list[0].check_positive_flux(
                 kwargs_source, kwargs_lens_light, kwargs_ps
             )
-- 
2.43.0


From 4aef249c07393cb200b91d09560079a55d5e6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:30 +0000
Subject: [PATCH 81/94] fix: residuals of a subset of bands are those of the
 models of the same bands

---
 lenstronomy/ImSim/MultiBand/multi_data_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/multi_data_base.py b/lenstronomy/ImSim/MultiBand/multi_data_base.py
index ecdd25e..688e9e4 100644
--- a/lenstronomy/ImSim/MultiBand/multi_data_base.py
+++ b/lenstronomy/ImSim/MultiBand/multi_data_base.py
@@ -74,16 +74,20 @@ class MultiDataBase(object):
     def reduced_residuals(self, model_list, error_map_list=None):
         """
 
-        :param model_list: list of models
-        :param error_map_list: list of error maps
-        :return:
+        :param model_list: list of models (either of all bands, with entries of bands
+            not computed being ignored, or only of the bands that are computed)
+        :param error_map_list: list of error maps (same format as model_list)
+        :return: list of residuals of the computed bands
         """
         residual_list = []
         if error_map_list is None:
             error_map_list = np.zeros(self.num_bands)
+        all_bands = len(model_list) == self._num_bands
         index = 0
         for i in range(self._num_bands):
             if self._compute_bool[i] is True:
+                if all_bands:
+                    index = i
                 residual_list.append(
                     self._image_model_list[i].reduced_residuals(
                         model_list[index], error_map=error_map_list[index]
-- 
2.43.0


From de3886c025f69291736474af4509b9194062650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:30 +0000
Subject: [PATCH 82/94] fix: image reconstruction of a subset of jointly solved
 bands

---
 lenstronomy/Analysis/image_reconstruction.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Analysis/image_reconstruction.py b/lenstronomy/Analysis/image_reconstruction.py
index 9de6497..7509c72 100644
--- a/lenstronomy/Analysis/image_reconstruction.py
+++ b/lenstronomy/Analysis/image_reconstruction.py
@@ -92,20 +92,25 @@ class MultiBandImageReconstruction(object):
                 )
 
         self.model_band_list = []
+        index = 0
         for i in range(len(multi_band_list)):
             if bands_compute[i] is True:
                 if multi_band_type == "joint-linear":
+                    # models of the joint solution are those of the computed bands only
+                    index_i = index
                     param_i = param
                     cov_param_i = cov_param
                 else:
+                    index_i = i
                     param_i = param[i]
                     cov_param_i = cov_param[i]
+                index += 1
 
                 model_band = ModelBand(
                     multi_band_list,
                     kwargs_model,
-                    model[i],
-                    error_map[i],
+                    model[index_i],
+                    error_map[index_i],
                     cov_param_i,
                     param_i,
                     copy.deepcopy(kwargs_params),
-- 
2.43.0


From 9bb4447905fe23792962c2879c3ee0e905afbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:18 +0000
Subject: [PATCH 83/94] fix: single band of a multi-band data set uses its own
 astrometric offset

---
 lenstronomy/ImSim/MultiBand/single_band_multi_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
index c982095..5616123 100644
--- a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
+++ b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
@@ -103,6 +103,8 @@ class SingleBandMultiModel(ImageLinearFit, ImageModel):
             likelihood_mask=likelihood_mask_list[band_index],
             kwargs_pixelbased=kwargs_pixelbased,
         )
+        # astrometric offsets of this band are those with its index
+        self.image_index = band_index
 
     def image(
         self,
-- 
2.43.0


From 7388201657f201f053359efe7ca89343e41d6d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:42 +0000
Subject: [PATCH 84/94] fix: likelihood mask of the tracer data is applied

---
 lenstronomy/ImSim/tracer_model.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lenstronomy/ImSim/tracer_model.py b/lenstronomy/ImSim/tracer_model.py
index af599f4..3a491fd 100644
--- a/lenstronomy/ImSim/tracer_model.py
+++ b/lenstronomy/ImSim/tracer_model.py
@@ -2,7 +2,6 @@ from lenstronomy.ImSim.image_model import ImageModel
 from lenstronomy.LightModel.light_model import LightModel
 from lenstronomy.LensModel.lens_model import LensModel
 from lenstronomy.ImSim.image2source_mapping import Image2SourceMapping
-from lenstronomy.Util import util
 import numpy as np
 
 
@@ -49,10 +48,6 @@ class TracerModelSource(ImageModel):
          and then converted back to log units.
         :type tracer_partition: str
         """
-        if likelihood_mask is None:
-            likelihood_mask = np.ones_like(data_class.data)
-        self.likelihood_mask = np.array(likelihood_mask, dtype=bool)
-        self._mask1d = util.image2array(self.likelihood_mask)
         if tracer_partition is None:
             tracer_partition = [[None, None]]
         self._tracer_partition = tracer_partition
@@ -72,6 +67,7 @@ class TracerModelSource(ImageModel):
             point_source_class=point_source_class,
             extinction_class=extinction_class,
             kwargs_numerics=kwargs_numerics,
+            likelihood_mask=likelihood_mask,
             kwargs_pixelbased=kwargs_pixelbased,
         )
         if psf_error_map_bool_list is None:
-- 
2.43.0


From 81cce27d0c65f0a403642c06a9e3772f3cc4dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:09 +0000
Subject: [PATCH 85/94] fix: source amplitude of SOURCE_POSITION uses the
 settings of the lens equation solver

---
 .../PointSource/Types/lensed_position.py      |  2 +-
 .../PointSource/Types/source_position.py      | 21 +++++++++++++++++--
 lenstronomy/PointSource/point_source.py       |  5 ++++-
 .../PointSource/point_source_cached.py        |  7 +++++--
 4 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 980bf73..b3f07ec 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -148,7 +148,7 @@ class LensedPositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         return np.array(point_amp)
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(self, kwargs_ps, kwargs_lens=None, **kwargs):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
         in the magnification corrected image position brightnesses.
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index d01aaae..2d8b251 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -113,7 +113,13 @@ class SourcePositions(PSBase):
         point_amp = np.array(point_amp) * np.array(mag_pert)
         return point_amp
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(
+        self,
+        kwargs_ps,
+        kwargs_lens=None,
+        magnification_limit=None,
+        kwargs_lens_eqn_solver=None,
+    ):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
         in the magnification corrected image position brightnesses.
@@ -121,13 +127,24 @@ class SourcePositions(PSBase):
         :param kwargs_ps: keyword arguments of the point source model
         :param kwargs_lens: keyword argument list of the lens model(s), used when
             brightness are defined in magnified on-sky positions
+        :param magnification_limit: float >0 or None, if float is set and additional
+            images are computed, only those images will be computed that exceed the
+            lensing magnification (absolute value) limit
+        :param kwargs_lens_eqn_solver: keyword arguments specifying the numerical
+            settings for the lens equation solver see LensEquationSolver() class for
+            details
         :return: brightness amplitude (as numpy array)
         """
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
             z_source = self._set_source_redshift(self._redshift)
-            ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
+            ra_image, dec_image = self.image_position(
+                kwargs_ps,
+                kwargs_lens=kwargs_lens,
+                magnification_limit=magnification_limit,
+                kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
+            )
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             self._set_source_redshift(z_source)
             point_amp = kwargs_ps["point_amp"]
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 8a5fb4d..56148d9 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -393,7 +393,10 @@ class PointSource(object):
         amp_list = []
         for i, model in enumerate(self._point_source_list):
             source_amp = model.source_amplitude(
-                kwargs_ps=kwargs_ps[i], kwargs_lens=kwargs_lens
+                kwargs_ps=kwargs_ps[i],
+                kwargs_lens=kwargs_lens,
+                magnification_limit=self._magnification_limit,
+                kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
             )
             if self._flux_from_point_source_list[i]:
                 amp_list.append(source_amp)
diff --git a/lenstronomy/PointSource/point_source_cached.py b/lenstronomy/PointSource/point_source_cached.py
index 52a0e42..dd60641 100644
--- a/lenstronomy/PointSource/point_source_cached.py
+++ b/lenstronomy/PointSource/point_source_cached.py
@@ -133,12 +133,15 @@ class PointSourceCached(object):
             kwargs_ps, kwargs_lens=kwargs_lens, x_pos=x_pos, y_pos=y_pos
         )
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(self, kwargs_ps, kwargs_lens=None, **kwargs):
         """Intrinsic brightness amplitude of point source.
 
         :param kwargs_ps: keyword arguments of the point source model
         :param kwargs_lens: keyword argument list of the lens model(s), only used when
             positions are defined in image plane and have to be ray-traced back
+        :param kwargs: settings of the lens equation solver
         :return: brightness amplitude (as numpy array)
         """
-        return self._model.source_amplitude(kwargs_ps, kwargs_lens=kwargs_lens)
+        return self._model.source_amplitude(
+            kwargs_ps, kwargs_lens=kwargs_lens, **kwargs
+        )
-- 
2.43.0


From 6f6a3e670d62640395f31568454f40983a897b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:59 +0000
Subject: [PATCH 86/94] fix: concentration from the halo density uses the
 requested redshift, not the first one asked

---
 lenstronomy/Cosmo/gnfw_param.py | 3 ++-
 lenstronomy/Cosmo/nfw_param.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Cosmo/gnfw_param.py b/lenstronomy/Cosmo/gnfw_param.py
index e93b232..e63829c 100644
--- a/lenstronomy/Cosmo/gnfw_param.py
+++ b/lenstronomy/Cosmo/gnfw_param.py
@@ -130,7 +130,7 @@ class GNFWParam(object):
         :rtype: float
         """
         c_array = np.linspace(0.1, 30, 100)
-        if not hasattr(self, "_rho0_c_gamma_in_interps"):
+        if not hasattr(self, "_rho0_c_gamma_in_interps") or self._rho0_c_z != z:
             gamma_in_array = np.linspace(0.1, 2.99, 100)
             self._rho0_c_gamma_in_interps = []
 
@@ -142,6 +142,7 @@ class GNFWParam(object):
                         gamma_in_array, rho0_array, w=None, bbox=[None, None], k=3
                     )
                 )
+            self._rho0_c_z = z
 
         rho0_interp = [interp(gamma_in) for interp in self._rho0_c_gamma_in_interps]
 
diff --git a/lenstronomy/Cosmo/nfw_param.py b/lenstronomy/Cosmo/nfw_param.py
index 598971d..548f1d5 100644
--- a/lenstronomy/Cosmo/nfw_param.py
+++ b/lenstronomy/Cosmo/nfw_param.py
@@ -102,13 +102,14 @@ class NFWParam(object):
         :return: concentration parameter c
         :rtype: float
         """
-        if not hasattr(self, "_c_rho0_interp"):
+        if not hasattr(self, "_c_rho0_interp") or self._c_rho0_z != z:
             c_array = np.linspace(0.1, 30, 100)
             rho0_array = self.rho0_c(c_array, z)
 
             self._c_rho0_interp = interpolate.InterpolatedUnivariateSpline(
                 rho0_array, c_array, w=None, bbox=[None, None], k=3
             )
+            self._c_rho0_z = z
         return self._c_rho0_interp(rho0)
 
     @staticmethod
-- 
2.43.0


From fb1fc54b5035112c6967f0a567b868f7ecd749fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:08 +0000
Subject: [PATCH 87/94] fix: observation configurations no longer write into
 the shared band definitions

---
 lenstronomy/SimulationAPI/ObservationConfig/DES.py | 10 +++++-----
 lenstronomy/SimulationAPI/ObservationConfig/HST.py |  4 ++--
 .../SimulationAPI/ObservationConfig/JWST.py        | 12 ++++++------
 .../SimulationAPI/ObservationConfig/Roman.py       | 14 +++++++-------
 lenstronomy/SimulationAPI/ObservationConfig/ZTF.py |  6 +++---
 5 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/lenstronomy/SimulationAPI/ObservationConfig/DES.py b/lenstronomy/SimulationAPI/ObservationConfig/DES.py
index 6437d68..341c61c 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/DES.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/DES.py
@@ -74,15 +74,15 @@ class DES(object):
         :param coadd_years: int, number of years corresponding to num_exposures in obs dict. Currently supported: 1-6.
         """
         if band == "g":
-            self.obs = g_band_obs
+            self.obs = g_band_obs.copy()
         elif band == "r":
-            self.obs = r_band_obs
+            self.obs = r_band_obs.copy()
         elif band == "i":
-            self.obs = i_band_obs
+            self.obs = i_band_obs.copy()
         elif band == "z":
-            self.obs = z_band_obs
+            self.obs = z_band_obs.copy()
         elif band == "Y":
-            self.obs = Y_band_obs
+            self.obs = Y_band_obs.copy()
         else:
             raise ValueError(
                 "band %s not supported! Choose 'g', 'r', 'i', 'z', or 'Y'." % band
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/HST.py b/lenstronomy/SimulationAPI/ObservationConfig/HST.py
index 05d3857..2003675 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/HST.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/HST.py
@@ -52,9 +52,9 @@ class HST(object):
         """
 
         if band == "TDLMC_F160W":
-            self.obs = TDLMC_F160W_band_obs
+            self.obs = TDLMC_F160W_band_obs.copy()
         elif band == "WFC3_F160W" or band == "F160W":
-            self.obs = WFC3_F160W_band_obs
+            self.obs = WFC3_F160W_band_obs.copy()
 
         else:
             raise ValueError(
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/JWST.py b/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
index fb83894..9918509 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
@@ -86,22 +86,22 @@ class JWST(object):
         """
 
         if band == "F200W":
-            self.obs = NIRCAM_F200W_band_obs
+            self.obs = NIRCAM_F200W_band_obs.copy()
             self.arm = "short"
         elif band == "F356W":
-            self.obs = NIRCAM_F356W_band_obs
+            self.obs = NIRCAM_F356W_band_obs.copy()
             self.arm = "long"
         elif band == "F115W":
-            self.obs = NIRCAM_F115W_band_obs
+            self.obs = NIRCAM_F115W_band_obs.copy()
             self.arm = "short"
         elif band == "F150W":
-            self.obs = NIRCAM_F150W_band_obs
+            self.obs = NIRCAM_F150W_band_obs.copy()
             self.arm = "short"
         elif band == "F277W":
-            self.obs = NIRCAM_F277W_band_obs
+            self.obs = NIRCAM_F277W_band_obs.copy()
             self.arm = "long"
         elif band == "F444W":
-            self.obs = NIRCAM_F444W_band_obs
+            self.obs = NIRCAM_F444W_band_obs.copy()
             self.arm = "long"
         else:
             raise ValueError("band %s not supported!" % band)
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/Roman.py b/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
index 765d9d6..d1fa58f 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
@@ -78,19 +78,19 @@ class Roman(object):
         """
 
         if band == "F062":
-            self.obs = F062_band_obs
+            self.obs = F062_band_obs.copy()
         elif band == "F087":
-            self.obs = F087_band_obs
+            self.obs = F087_band_obs.copy()
         elif band == "F106":
-            self.obs = F106_band_obs
+            self.obs = F106_band_obs.copy()
         elif band == "F129":
-            self.obs = F129_band_obs
+            self.obs = F129_band_obs.copy()
         elif band == "F158":
-            self.obs = F158_band_obs
+            self.obs = F158_band_obs.copy()
         elif band == "F184":
-            self.obs = F184_band_obs
+            self.obs = F184_band_obs.copy()
         elif band == "F146":
-            self.obs = F146_band_obs
+            self.obs = F146_band_obs.copy()
         else:
             raise ValueError(
                 "band %s not supported! Choose 'F062', 'F087', 'F106', 'F129', 'F158' , 'F184' or 'F146'"
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py b/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
index 954125a..54d668c 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
@@ -70,11 +70,11 @@ class ZTF(object):
         :param coadd_years: int, number of years corresponding to num_exposures in obs dict. Currently supported: 1-3.
         """
         if band == "g":
-            self.obs = g_band_obs
+            self.obs = g_band_obs.copy()
         elif band == "r":
-            self.obs = r_band_obs
+            self.obs = r_band_obs.copy()
         elif band == "i":
-            self.obs = i_band_obs
+            self.obs = i_band_obs.copy()
         else:
             raise ValueError("band %s not supported! Choose 'g', 'r', or 'i'." % band)
 
-- 
2.43.0


From ee3d01de37f17818247fd2cc6403110a6b7e88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:37 +0000
Subject: [PATCH 88/94] fix: LightProfile.delete_cache also drops the
 distribution light is drawn from in 3d

---
 lenstronomy/GalKin/light_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/GalKin/light_profile.py b/lenstronomy/GalKin/light_profile.py
index d96f3a5..3ae7dd5 100644
--- a/lenstronomy/GalKin/light_profile.py
+++ b/lenstronomy/GalKin/light_profile.py
@@ -293,6 +293,8 @@ class LightProfile(object):
         """
         if hasattr(self, "_light_cdf_log"):
             del self._light_cdf_log
+        if hasattr(self, "_light_3d_cdf_log"):
+            del self._light_3d_cdf_log
         if hasattr(self, "_light_cdf"):
             del self._light_cdf
         if hasattr(self, "_f_light_3d"):
-- 
2.43.0


From b8b4213f738de10b0289f600b1f7725cc1b1880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 89/94] fix: Galkin.dispersion_map_grid_convolved drops the
 cached solution like the other methods

---
 lenstronomy/GalKin/galkin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 9352d0c..39a7c57 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -380,6 +380,8 @@ class Galkin(GalkinModel, GalkinObservation):
 
         sigma2_grid = sigma_IR_integrated / IR_integrated
 
+        self.numerics.delete_cache()
+
         # apply unit conversion from arc seconds and deflections to physical velocity
         # dispersion in (km/s)
         return np.sqrt(sigma2_grid) / 1000.0  # in units of km/s
-- 
2.43.0


From afcf936208d246b365b4edf1f5462a4485f17259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 90/94] fix: set_dynamic drops all interpolation functions of
 INTERPOL and RADIAL_INTERPOL

---
 lenstronomy/LensModel/Profiles/interpol.py    | 23 +++++++++++++++++++
 .../LensModel/Profiles/radial_interpolated.py |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/interpol.py b/lenstronomy/LensModel/Profiles/interpol.py
index e00e295..293b8cc 100644
--- a/lenstronomy/LensModel/Profiles/interpol.py
+++ b/lenstronomy/LensModel/Profiles/interpol.py
@@ -325,6 +325,22 @@ class Interpol(LensProfileBase):
             )
         return self._f_yy_interp(y, x, grid=grid)
 
+    def set_dynamic(self):
+        """
+
+        :return: no return, deletes the interpolation functions of the lens model
+        """
+        for name in [
+            "_f_interp",
+            "_f_x_interp",
+            "_f_y_interp",
+            "_f_xx_interp",
+            "_f_xy_interp",
+            "_f_yy_interp",
+        ]:
+            if hasattr(self, name):
+                delattr(self, name)
+
     def do_interp(self, x_grid, y_grid, f_, f_x, f_y, f_xx=None, f_yy=None, f_xy=None):
         self._f_interp = scipy.interpolate.RectBivariateSpline(
             x_grid, y_grid, f_, **self._kwargs_spline
@@ -383,6 +399,13 @@ class InterpolScaled(LensProfileBase):
         )
         super(InterpolScaled, self).__init__()
 
+    def set_dynamic(self):
+        """
+
+        :return: no return, deletes the interpolation functions of the lens model
+        """
+        self.interp_func.set_dynamic()
+
     def function(
         self,
         x,
diff --git a/lenstronomy/LensModel/Profiles/radial_interpolated.py b/lenstronomy/LensModel/Profiles/radial_interpolated.py
index af2f4d8..64c3920 100644
--- a/lenstronomy/LensModel/Profiles/radial_interpolated.py
+++ b/lenstronomy/LensModel/Profiles/radial_interpolated.py
@@ -245,6 +245,8 @@ class RadialInterpolate(LensProfileBase):
 
         :return: no return, deletes pre-computed variables for certain lens models
         """
+        if hasattr(self, "_interp_m_enclosed"):
+            del self._interp_m_enclosed
         if hasattr(self, "_interp_m_enclosed_over_r"):
             del self._interp_m_enclosed_over_r
         if hasattr(self, "_interp_kappa"):
-- 
2.43.0


From f3cad0b13d3e57af0816044702cb75523c3b7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 91/94] fix: Interpol.do_interp uses the axis order of the
 interpolation on the fly

---
 lenstronomy/LensModel/Profiles/interpol.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/interpol.py b/lenstronomy/LensModel/Profiles/interpol.py
index 293b8cc..5b75c34 100644
--- a/lenstronomy/LensModel/Profiles/interpol.py
+++ b/lenstronomy/LensModel/Profiles/interpol.py
@@ -343,25 +343,25 @@ class Interpol(LensProfileBase):
 
     def do_interp(self, x_grid, y_grid, f_, f_x, f_y, f_xx=None, f_yy=None, f_xy=None):
         self._f_interp = scipy.interpolate.RectBivariateSpline(
-            x_grid, y_grid, f_, **self._kwargs_spline
+            y_grid, x_grid, f_, **self._kwargs_spline
         )
         self._f_x_interp = scipy.interpolate.RectBivariateSpline(
-            x_grid, y_grid, f_x, **self._kwargs_spline
+            y_grid, x_grid, f_x, **self._kwargs_spline
         )
         self._f_y_interp = scipy.interpolate.RectBivariateSpline(
-            x_grid, y_grid, f_y, **self._kwargs_spline
+            y_grid, x_grid, f_y, **self._kwargs_spline
         )
         if f_xx is not None:
             self._f_xx_interp = scipy.interpolate.RectBivariateSpline(
-                x_grid, y_grid, f_xx, **self._kwargs_spline
+                y_grid, x_grid, f_xx, **self._kwargs_spline
             )
         if f_xy is not None:
             self._f_xy_interp = scipy.interpolate.RectBivariateSpline(
-                x_grid, y_grid, f_xy, **self._kwargs_spline
+                y_grid, x_grid, f_xy, **self._kwargs_spline
             )
         if f_yy is not None:
             self._f_yy_interp = scipy.interpolate.RectBivariateSpline(
-                x_grid, y_grid, f_yy, **self._kwargs_spline
+                y_grid, x_grid, f_yy, **self._kwargs_spline
             )
 
 
-- 
2.43.0


From b03f5348d722434076befd23ed2e351cd94b65aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 92/94] fix: BPL profiles of a lens model do not share one
 static state

---
 lenstronomy/LensModel/profile_list_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/profile_list_base.py b/lenstronomy/LensModel/profile_list_base.py
index 6ad6d30..0fd4b97 100644
--- a/lenstronomy/LensModel/profile_list_base.py
+++ b/lenstronomy/LensModel/profile_list_base.py
@@ -111,6 +111,7 @@ _SUPPORTED_MODELS = [
 # interpolated. This list does not need to include profiles with different initialization settings,
 # e.g. GNFW, since that is handled automatically in _load_model_instances()
 DYNAMIC_PROFILES = [
+    "BPL",
     "CHAMELEON",
     "CTNFW_GAUSS_DEC",
     "DOUBLE_CHAMELEON",
-- 
2.43.0


From 05b8d4d0ad1d2c7ef9222837924bc22f49775f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:44 +0000
Subject: [PATCH 93/94] fix: AnalyticKinematics.delete_cache drops the cached
 light profile too

---
 lenstronomy/GalKin/analytic_kinematics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/GalKin/analytic_kinematics.py b/lenstronomy/GalKin/analytic_kinematics.py
index 91d8c6b..91954af 100644
--- a/lenstronomy/GalKin/analytic_kinematics.py
+++ b/lenstronomy/GalKin/analytic_kinematics.py
@@ -362,3 +362,4 @@ class AnalyticKinematics(Anisotropy):
         """
         if hasattr(self, "_interp_sigma_r2"):
             del self._interp_sigma_r2
+        self.light_profile.delete_cache()
-- 
2.43.0


From 5f937f821ec810cda8eb381068663112bd1a4ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:57 +0000
Subject: [PATCH 94/94] fix: pixel kernel and default PSF variance follow the
 pixel size of a Gaussian PSF

---
 lenstronomy/Data/psf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 12e8f11..481ee61 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -254,6 +254,10 @@ class PSF(object):
                 del self._kernel_point_source_supersampled
             except:
                 pass
+            try:
+                del self._kernel_pixel
+            except:
+                pass
 
     @property
     def psf_variance_map(self):
@@ -266,7 +270,7 @@ class PSF(object):
         :rtype: 2d numpy array of size of the PSF in pixel size (not supersampled)
         """
         if not hasattr(self, "_psf_variance_map"):
-            self._psf_variance_map = np.zeros_like(self.kernel_point_source)
+            return np.zeros_like(self.kernel_point_source)
         return self._psf_variance_map
 
     @property
-- 
2.43.0

