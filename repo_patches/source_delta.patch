From f37e5f3632fc20869608ce97f73417032bec6f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:18 +0000
Subject: [PATCH 01/13] fix: read NIST values that have no uncertainty

Monoisotopic elements are listed as "Isotopic Composition = 1", without an
uncertainty in parentheses. Such values were replaced by the default, so
these elements (Al, Na, Au, ...) had an abundance and a mass of zero.
---
 ries/constituents/natural_element_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index cd1d01a..4e6353a 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -174,9 +174,9 @@ class NISTElementDataReader:
 
         - float, value
         """
-        return self.read_nist_element_property(
-            line[0 : line.find("(") + 1], prefix, float, default
-        )
+        if "(" in line:
+            line = line[0 : line.find("(") + 1]
+        return self.read_nist_element_property(line, prefix, float, default)
 
     def read_nist_element_symbols(self):
         """Find all element symbols in the data file and organize them in a dictionary.
-- 
2.43.0


From 65604322b51578b30807e59818446ec520047d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:26 +0000
Subject: [PATCH 02/13] fix: match the whole element symbol in the density
 lookup

The lookup accepted any line whose first two characters contain the symbol.
Boron, sulfur and iodine got the densities of beryllium, silicon and indium.
---
 ries/constituents/natural_element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index 4e6353a..02daccb 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -259,7 +259,7 @@ class Geant4DensityDataReader:
 
         with open(self.density_data_file_name, "r") as file:
             for line in file:
-                if X in line[0:2]:
+                if line[0:2].strip() == X:
                     return self.density_conversion(float(line[2:]))
 
             return None
-- 
2.43.0


From ca2ffbd66997b324915878a3c8cc4891a964c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:36 +0000
Subject: [PATCH 03/13] fix: do not cut digits off XRMAC lines without a
 trailing newline

The last two characters of each line were dropped unconditionally. The last
line of the lead table has no newline, so its exponent lost a digit.
---
 ries/nonresonant/xrmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index 969d9a4..bced4d5 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -214,7 +214,7 @@ class XRMAC(Nonresonant):
                 skip = 3
         with open(xrmac_file_name, "r") as file:
             for line in file:
-                line = line[skip:-2].split(sep="  ")
+                line = line[skip:].split()
                 data.append(
                     [
                         self.energy_conversion(float(line[0])),
-- 
2.43.0


From 898ff736d1f7b18d164401df07784c9af5322c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:44 +0000
Subject: [PATCH 04/13] fix: bind the element mass in the XRMAC per-atom
 conversion

All conversion functions looked up the mass through the loop variable, so
after the import each of them used the mass of uranium.
---
 ries/nonresonant/xrmac.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index bced4d5..1ace6be 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -238,9 +238,9 @@ for Z in range(1, 93):
     xrmac_cm2_per_g[X[Z]] = XRMAC(str(xrmac_data_dir / "{:02d}.txt".format(Z)))
     xrmac_fm2_per_atom[X[Z]] = XRMAC(
         str(xrmac_data_dir / "{:02d}.txt".format(Z)),
-        xrmac_conversion=lambda xrmac: xrmac
+        xrmac_conversion=lambda xrmac, amu=natural_elements[X[Z]].amu: xrmac
         * cm_to_fm ** 2
-        * natural_elements[X[Z]].amu
+        * amu
         * physical_constants["atomic mass constant"][0]
         * kg_to_g,
     )
-- 
2.43.0


From 00df4de114f92378993108e79a87ac8950d2b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:53 +0000
Subject: [PATCH 05/13] fix: set a negative lower limit of the coverage
 interval to zero

The warning announced that zero is returned, but the negative limit was
passed on. The reachable coverage in the message ignored the parameters of
the distribution.
---
 ries/resonance/resonance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index cf9ff52..d14e69e 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -295,10 +295,17 @@ class Resonance(CrossSection):
         if limits[0] < 0.0:
             warnings.warn(
                 "Unphysical negative lower limit of coverage interval encountered. Returning zero instead. The maximum coverage that can be reached with positive energies for this cross section is {:f} %.".format(
-                    100.0 * (1.0 - self.probability_distribution.cdf(0.0))
+                    100.0
+                    * (
+                        1.0
+                        - self.probability_distribution.cdf(
+                            0.0, *self.probability_distribution_parameters
+                        )
+                    )
                 ),
                 UserWarning,
             )
+            limits[0] = 0.0
         if np.isinf(limits[1]):
             warnings.warn(
                 "Infinite upper limit of coverage interval encountered.", UserWarning
-- 
2.43.0


From cd45ab1dd035b397b614824b72a1c1825fb48f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:01 +0000
Subject: [PATCH 06/13] fix: keep equal-probability grids inside the requested
 limits

For limits far away from a resonance, the CDF is 0 or 1 within the numerical
precision and the inner grid points were infinite.
---
 ries/resonance/resonance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index d14e69e..2b415dc 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -367,7 +367,11 @@ class Resonance(CrossSection):
         # probability_distribution.cdf() may return 0 or 1 instead of 0.000... or 0.999...,
         # which would then cause probability_distribution.ppf to return -np.inf or np.inf as
         # limits of the grid instead of the given values.
+        # The same may happen to the points in between, which are restricted to the given range.
         if not isinstance(coverage_or_limits, (int, float)):
+            equ_dis_pro_grid = np.clip(
+                equ_dis_pro_grid, coverage_or_limits[0], coverage_or_limits[1]
+            )
             equ_dis_pro_grid[0] = coverage_or_limits[0]
             equ_dis_pro_grid[-1] = coverage_or_limits[1]
         return equ_dis_pro_grid
-- 
2.43.0


From 3b271b633272d6b5171bc12f8f187f5471d95be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:09 +0000
Subject: [PATCH 07/13] fix: use the fallback PPF when only some quantiles
 converge

scipy.optimize.newton raises an exception only if no value of an array
converges. For a partial failure, the method returned None.
---
 ries/resonance/pseudo_voigt.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index b43ad74..1bbd8f2 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -240,11 +240,13 @@ class PseudoVoigtDistribution:
                 return newton_result[0]
 
         except RuntimeError:
-            warnings.warn(
-                "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
-                UserWarning,
-            )
-            return self.pseudo_voigt_expression(quantile, "ppf")
+            pass
+
+        warnings.warn(
+            "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
+            UserWarning,
+        )
+        return self.pseudo_voigt_expression(quantile, "ppf")
 
     def get_Gamma(self):
         """Calculate Gamma parameter
-- 
2.43.0


From 395b93be2fea6e1c17b144394008da6e3ee9f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:18 +0000
Subject: [PATCH 08/13] fix: use the full Cauchy scale in the pseudo-Voigt
 profile

gamma_L already is half of the full width at half maximum. It was halved
again, so the profile did not approach the Breit-Wigner shape at low
temperatures.
---
 ries/resonance/pseudo_voigt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index 1bbd8f2..45581f8 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -166,7 +166,7 @@ class PseudoVoigtDistribution:
             """(1.0 - self.eta) * norm.{}(
             x, loc=self.resonance_energy, scale=self.gamma_G / np.sqrt(2.0)
         ) + self.eta * cauchy.{}(
-            x, loc=self.resonance_energy, scale=0.5 * self.gamma_L
+            x, loc=self.resonance_energy, scale=self.gamma_L
         )""".format(
                 method, method
             )
-- 
2.43.0


From d014bfadee66408074486ffda56841cdad906d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:27 +0000
Subject: [PATCH 09/13] fix: accept arrays of integration limits in
 quad_partition

The truth value of a numpy array with several elements is ambiguous, so the
documented array input raised a ValueError.
---
 ries/integration/quad_partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ries/integration/quad_partition.py b/ries/integration/quad_partition.py
index d850830..94e78a9 100644
--- a/ries/integration/quad_partition.py
+++ b/ries/integration/quad_partition.py
@@ -67,7 +67,8 @@ def quad_partition(f, x0, x1_to_xn_minus_1=None):
     """
     integral = 0.0
     uncertainty_estimate = 0.0
-    x1_to_xn_minus_1 = x1_to_xn_minus_1 or []
+    if x1_to_xn_minus_1 is None:
+        x1_to_xn_minus_1 = []
 
     for i in range(len(x0) - 1):
         nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])
-- 
2.43.0


From 2537ccda48aa5cea3f8ec0b8dcb987e9cdb80a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:36 +0000
Subject: [PATCH 10/13] fix: allow an empty CrossSectionWeightedSum without
 arguments

The default value None of the reactions raised a TypeError.
---
 ries/cross_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index 38ad450..fa62b58 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -222,7 +222,7 @@ class CrossSectionWeightedSum:
         """
         self.reactions = reactions or []
         if scale_factors is None:
-            scale_factors = [1.0] * len(reactions)
+            scale_factors = [1.0] * len(self.reactions)
         self.scale_factors = scale_factors
 
     def __add__(self, other):
-- 
2.43.0


From 0e307e635bb246b2687695f8d8a98b7769068695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:45 +0000
Subject: [PATCH 11/13] fix: correct the symbols of manganese and vanadium in
 the Debye table

---
 ries/resonance/debye_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ries/resonance/debye_model.py b/ries/resonance/debye_model.py
index f0bcd91..a15684e 100644
--- a/ries/resonance/debye_model.py
+++ b/ries/resonance/debye_model.py
@@ -132,7 +132,7 @@ room_temperature_T_D = {
     "Li": 448.0,
     "Lu": 116.0,
     "Mg": 330.0,
-    "Ma": 363.0,
+    "Mn": 363.0,
     "Hg": 92.0,
     "Mo": 377.0,
     "Nd": 148.0,
@@ -172,7 +172,7 @@ room_temperature_T_D = {
     "Ti": 380.0,
     "W": 312.0,
     "U": 300.0,
-    "Va": 390.0,
+    "V": 390.0,
     "Xe": None,
     "Yb": None,
     "Y": 214.0,
-- 
2.43.0


From 8dead1b392c1ef9d36e45c0fa49bcb1c441b7bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:13 +0000
Subject: [PATCH 12/13] fix: use the mass of the scattering particle in the
 Compton kinematics

The scattering angle, the energy of the scattered photon and the
energy-differential cross sections always used the electron mass, even if
another mass was passed to the constructor.
---
 ries/nonresonant/klein_nishina.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index ba57256..6799042 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -155,8 +155,7 @@ class KleinNishina(Nonresonant):
 
         return self.Ep_over_E(E, np.pi) * E
 
-    @staticmethod
-    def theta(E, Ep):
+    def theta(self, E, Ep):
         """Scattering angle for a given scattered energy
 
         Parameters:
@@ -168,15 +167,9 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, scattering angle of the photon in radians.
         """
-        return np.arccos(
-            1
-            - (E / Ep - 1)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
-            / E
-        )
+        return np.arccos(1 - (E / Ep - 1) * self.mc2 / E)
 
-    @staticmethod
-    def Ep_over_E(E, theta):
+    def Ep_over_E(self, E, theta):
         """Ratio of final and initial photon energy for a given scattering angle
 
         Parameters:
@@ -188,12 +181,7 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, ratio of the energy of the scattered photon and its initial energy.
         """
-        return 1.0 / (
-            1.0
-            + E
-            / physical_constants["electron mass energy equivalent in MeV"][0]
-            * (1.0 - np.cos(theta))
-        )
+        return 1.0 / (1.0 + E / self.mc2 * (1.0 - np.cos(theta)))
 
     def cs_diff_dOmega(self, E, theta, phi):
         """Differential cross section w.r.t. the solid-angle
@@ -262,7 +250,7 @@ class KleinNishina(Nonresonant):
         """
         return (
             self.cs_diff_dOmega(E, self.theta(E, Ep), phi)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            * self.mc2
             / (Ep * Ep)
         )
 
@@ -280,7 +268,7 @@ class KleinNishina(Nonresonant):
         """
         return (
             self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            * self.mc2
             / (Ep * Ep)
         )
 
-- 
2.43.0


From dfd76936154893198263ba979ce305e6704c76fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:22 +0000
Subject: [PATCH 13/13] fix: average the unpolarized cross section over the
 azimuthal angle

The unpolarized solid-angle differential cross section was the integral over
the azimuthal angle instead of the documented average, so its integral over
the full solid angle was 2 pi times the total cross section. The values of
the angle- and energy-differential cross sections do not change.
---
 ries/nonresonant/klein_nishina.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 6799042..c9bd28b 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -47,7 +47,7 @@ The equation above also contains the energy of the scattered photon, :math:`E^\p
 If no information on the polarization of the incident photon is available, the differential
 cross section can be averaged over the azimuthal angle:
 
-.. math:: \frac{\mathrm{d} \sigma_\mathrm{Compton, unpolarized}}{\mathrm{d}\Omega} (E, \Omega) = \frac{\int_0^{2\pi} \frac{\mathrm{d} \sigma_\mathrm{Compton}}{\mathrm{d}\Omega} (E, \Omega) \mathrm{d} \varphi}{\int_0^{2\pi} \mathrm{d} \varphi} = \frac{\pi \alpha^2 \hbar^2}{m^2 c^2} \left( \frac{E^\prime}{E} \right)^2 \left[ \frac{E^\prime}{E} + \frac{E}{E^\prime} - \sin \left( \theta \right)^2 \right].
+.. math:: \frac{\mathrm{d} \sigma_\mathrm{Compton, unpolarized}}{\mathrm{d}\Omega} (E, \Omega) = \frac{\int_0^{2\pi} \frac{\mathrm{d} \sigma_\mathrm{Compton}}{\mathrm{d}\Omega} (E, \Omega) \mathrm{d} \varphi}{\int_0^{2\pi} \mathrm{d} \varphi} = \frac{1}{2} \frac{\alpha^2 \hbar^2}{m^2 c^2} \left( \frac{E^\prime}{E} \right)^2 \left[ \frac{E^\prime}{E} + \frac{E}{E^\prime} - \sin \left( \theta \right)^2 \right].
 
 An integration of either :math:`\mathrm{d} \sigma_\mathrm{Compton} / \mathrm{d} \Omega` or
 :math:`\mathrm{d} \sigma_\mathrm{Compton, unpolarized} / \mathrm{d} \Omega` over the azimuthal
@@ -224,7 +224,7 @@ class KleinNishina(Nonresonant):
 
         relative_energy_change = self.Ep_over_E(E, theta)
         return (
-            np.pi
+            0.5
             * self.scale_factor
             * relative_energy_change
             * relative_energy_change
@@ -267,7 +267,9 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, energy-differential cross section in :math:`\mathrm{fm}^2 \mathrm{MeV}^{-1}`.
         """
         return (
-            self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
+            2.0
+            * np.pi
+            * self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
             * self.mc2
             / (Ep * Ep)
         )
@@ -285,7 +287,12 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, scattering-angle differential cross section in :math:`\mathrm{fm}^2`.
         """
 
-        return self.cs_diff_dOmega_unpolarized(E, theta) * np.sin(theta)
+        return (
+            2.0
+            * np.pi
+            * self.cs_diff_dOmega_unpolarized(E, theta)
+            * np.sin(theta)
+        )
 
     def cs_total(self, E):
         r"""Total cross section
-- 
2.43.0

