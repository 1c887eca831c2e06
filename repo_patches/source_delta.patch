From 19b775db5e09b1281d2efbac3b436f8120cecf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:45 +0000
Subject: [PATCH 1/9] fix: cut PhenomD amplitude and phase at the cutoff
 frequency itself

The cutoff was replaced by the grid point before the one nearest to it, so the
strain at a frequency depended on the rest of the grid, and a grid lying above
the cutoff wrapped around (index -1) and returned a non-zero strain there.
---
 src/ripplegw/waveforms/IMRPhenomD.py           | 9 ++-------
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 4 +---
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index efcf84f..2bb9c53 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -494,9 +494,7 @@ def Amp(
     Amp_IIb = get_IIb_Amp(f * M_s, theta, coeffs, f_RD, f_damp)
 
     # And now we can combine them by multiplying by a set of heaviside functions
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
+    fcut_true = fM_CUT / M_s
     Amp = (
         Amp_Ins * jnp.heaviside(f3 - f, 0.5)
         + jnp.heaviside(f - f3, 0.5) * Amp_IIa * jnp.heaviside(f4 - f, 0.5)
@@ -536,10 +534,7 @@ def _gen_IMRPhenomD(
     Psi -= t0 * ((f * M_s) - Mf_ref) + Psi_ref
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
-    # fcut_true = f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
+    fcut_true = fM_CUT / M_s
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 1f45180..234ed37 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -443,9 +443,7 @@ def gen_IMRPhenomD_NRTidalv2(
     Psi -= t0 * ((f * M_s) - Mf_ref) + Psi_ref
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
+    fcut_true = fM_CUT / M_s
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
-- 
2.43.0


From 4ede107a28660fedda37298469118f6a13380232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:45 +0000
Subject: [PATCH 2/9] fix: PhenomXAS coalescence time and phase follow the sign
 convention of the other models

The strain is built as exp(+i Psi) here, while the other models use exp(-i Psi):
the extrinsic phase had the wrong sign (a later tc moved the signal earlier) and
the coalescence phase entered once instead of twice.
---
 src/ripplegw/waveforms/IMRPhenomXAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index b9b8c95..fa008ef 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -1356,7 +1356,7 @@ def _gen_IMRPhenomXAS(
         + PI / 4.0
         + PI
     )
-    ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - theta_extrinsic[2]
+    ext_phase_contrib = -2.0 * PI * f * theta_extrinsic[1] + 2.0 * theta_extrinsic[2]
     Psi = Psi + (linb * fM_s) + lina + phifRef - 2 * PI + ext_phase_contrib
 
     A = Amp(f, theta_intrinsic, amp_coeffs, D=theta_extrinsic[0])
-- 
2.43.0


From 39dfa7abd4031b23826b532c8e1d47a14b7a0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:45 +0000
Subject: [PATCH 3/9] fix: PhenomPv2 coalescence time is in seconds

The phase -f M_s tc lacked the factor 2 pi and was scaled by the total mass.
---
 src/ripplegw/waveforms/IMRPhenomPv2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index d103328..2a6f123 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -243,8 +243,7 @@ def gen_IMRPhenomPv2(
     # )
     t0 = jax.grad(phi_IIb)(f_RD) / (2 * jnp.pi)
     phase_corr = jnp.cos(2 * jnp.pi * fs * (t0)) - 1j * jnp.sin(2 * jnp.pi * fs * (t0))
-    M_s = (m1 + m2) * gt
-    phase_corr_tc = jnp.exp(-1j * fs * M_s * tc)
+    phase_corr_tc = jnp.exp(-2j * jnp.pi * fs * tc)
     hp *= phase_corr * phase_corr_tc
     hc *= phase_corr * phase_corr_tc
 
-- 
2.43.0


From ac83146509871e810ed4f3fa50372e835964b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:45 +0000
Subject: [PATCH 4/9] fix: Planck taper is zero at its end point

At exactly 1.2 y the exponent -inf/(x - yp) selected the branch that returns 1.
---
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 234ed37..dbfa4d2 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -39,7 +39,7 @@ def get_planck_taper(x: Array, y: float) -> Array:
         x < y,
         1.0,
         jnp.where(
-            x > yp,
+            x >= yp,
             0.0,
             1.0 - 1.0 / (jnp.exp((yp - y) / (x - y) + (yp - y) / (x - yp)) + 1.0),
         ),
@@ -63,7 +63,7 @@ def get_planck_taper_der(x: Array, y: float):
         x < y,
         0.0,
         jnp.where(
-            x > yp,
+            x >= yp,
             0.0,
             jnp.exp((yp - y) / (x - y) + (yp - y) / (x - yp))
             * (
-- 
2.43.0


From 7a970c72d73903ac70ed1e2dcd08af95246d8eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:45 +0000
Subject: [PATCH 5/9] fix: speed of light in gigaparsecs per second was a
 factor 1000 too large

---
 src/ripplegw/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/constants.py b/src/ripplegw/constants.py
index 6307f91..a9b09f5 100644
--- a/src/ripplegw/constants.py
+++ b/src/ripplegw/constants.py
@@ -31,7 +31,7 @@ m_per_Mpc = 3.085677581491367278913937957796471611e22
 Meters per Mpc.
 """
 
-clightGpc = C / 3.0856778570831e22
+clightGpc = C / 3.0856778570831e25
 """
 Speed of light in vacuum (:math:`c`), in gigaparsecs per second
 """
-- 
2.43.0


From 43270695d84f3e8d9490410fd047563f307e7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:31 +0000
Subject: [PATCH 6/9] fix: equal masses no longer give NaN when rounding puts
 eta above 1/4

About one in five nearly equal-mass pairs gives eta = 1/4 + 1 ulp, and the
square root of the mass difference was then NaN.
---
 src/ripplegw/__init__.py                     | 18 +++++++++---------
 src/ripplegw/waveforms/IMRPhenomD.py         |  2 +-
 src/ripplegw/waveforms/IMRPhenomD_utils.py   |  4 ++--
 src/ripplegw/waveforms/IMRPhenomPv2.py       |  2 +-
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py |  2 +-
 src/ripplegw/waveforms/IMRPhenomXAS.py       | 14 +++++++-------
 src/ripplegw/waveforms/IMRPhenomX_utils.py   |  6 +++---
 7 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/ripplegw/__init__.py b/src/ripplegw/__init__.py
index f80bbd6..6b79746 100644
--- a/src/ripplegw/__init__.py
+++ b/src/ripplegw/__init__.py
@@ -32,7 +32,7 @@ def Mc_eta_to_ms(m):
     """
     Mchirp, eta = m
     M = Mchirp / (eta ** (3 / 5))
-    m2 = (M - jnp.sqrt(M**2 - 4 * M**2 * eta)) / 2
+    m2 = (M - jnp.sqrt(jnp.maximum(M**2 - 4 * M**2 * eta, 0.0))) / 2
     m1 = M - m2
     return m1, m2
 
@@ -84,7 +84,7 @@ def lambdas_to_lambda_tildes_from_q(params: Array):
         / 13
         * (
             (1 + 7 * eta - 31 * eta**2) * lambda_plus
-            + (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2) * lambda_minus
+            + jnp.maximum(1 - 4 * eta, 0.0) ** 0.5 * (1 + 9 * eta - 11 * eta**2) * lambda_minus
         )
     )
 
@@ -92,7 +92,7 @@ def lambdas_to_lambda_tildes_from_q(params: Array):
         1
         / 2
         * (
-            (1 - 4 * eta) ** 0.5
+            jnp.maximum(1 - 4 * eta, 0.0) ** 0.5
             * (1 - 13272 / 1319 * eta + 8944 / 1319 * eta**2)
             * lambda_plus
             + (1 - 15910 / 1319 * eta + 32850 / 1319 * eta**2 + 3380 / 1319 * eta**3)
@@ -134,7 +134,7 @@ def lambdas_to_lambda_tildes(params: Array):
         / 13
         * (
             (1 + 7 * eta - 31 * eta**2) * lambda_plus
-            + (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2) * lambda_minus
+            + jnp.maximum(1 - 4 * eta, 0.0) ** 0.5 * (1 + 9 * eta - 11 * eta**2) * lambda_minus
         )
     )
 
@@ -142,7 +142,7 @@ def lambdas_to_lambda_tildes(params: Array):
         1
         / 2
         * (
-            (1 - 4 * eta) ** 0.5
+            jnp.maximum(1 - 4 * eta, 0.0) ** 0.5
             * (1 - 13272 / 1319 * eta + 8944 / 1319 * eta**2)
             * lambda_plus
             + (1 - 15910 / 1319 * eta + 32850 / 1319 * eta**2 + 3380 / 1319 * eta**3)
@@ -183,8 +183,8 @@ def lambda_tildes_to_lambdas(params: Array):
 
     _, eta = ms_to_Mc_eta(jnp.array([mass_1, mass_2]))
     coefficient_1 = 1 + 7 * eta - 31 * eta**2
-    coefficient_2 = (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
-    coefficient_3 = (1 - 4 * eta) ** 0.5 * (
+    coefficient_2 = jnp.maximum(1 - 4 * eta, 0.0) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
+    coefficient_3 = jnp.maximum(1 - 4 * eta, 0.0) ** 0.5 * (
         1 - 13272 / 1319 * eta + 8944 / 1319 * eta**2
     )
     coefficient_4 = (
@@ -239,8 +239,8 @@ def lambda_tildes_to_lambdas_from_q(params: Array):
     eta = q / (1 + q) ** 2
 
     coefficient_1 = 1 + 7 * eta - 31 * eta**2
-    coefficient_2 = (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
-    coefficient_3 = (1 - 4 * eta) ** 0.5 * (
+    coefficient_2 = jnp.maximum(1 - 4 * eta, 0.0) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
+    coefficient_3 = jnp.maximum(1 - 4 * eta, 0.0) ** 0.5 * (
         1 - 13272 / 1319 * eta + 8944 / 1319 * eta**2
     )
     coefficient_4 = (
diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index 2bb9c53..815300e 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -214,7 +214,7 @@ def get_inspiral_Amp(fM_s: Array, theta: Array, coeffs: Array) -> Array:
     eta2 = eta * eta
     eta3 = eta * eta2
 
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     SetaPlus1 = 1.0 + Seta
 
     # Spin variables
diff --git a/src/ripplegw/waveforms/IMRPhenomD_utils.py b/src/ripplegw/waveforms/IMRPhenomD_utils.py
index 61a7ab2..2e35960 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_utils.py
@@ -38,7 +38,7 @@ def EradRational0815_s(eta, s):
 
 
 def EradRational0815(eta, chi1, chi2):
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
     m2 = 0.5 * (1.0 - Seta)
     m1s = m1 * m1
@@ -146,7 +146,7 @@ def get_coeffs(theta: Array) -> Array:
     # Definition of chiPN from lalsuite
     chi_s = (chi1 + chi2) / 2.0
     chi_a = (chi1 - chi2) / 2.0
-    seta = (1 - 4 * eta) ** (1 / 2)
+    seta = jnp.maximum(1 - 4 * eta, 0.0) ** (1 / 2)
     chiPN = chi_s * (1 - 76 * eta / 113) + seta * chi_a
 
     coeff = (
diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index 2a6f123..e546ac3 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -33,7 +33,7 @@ def PhenomPCoreTwistUp(
 
     # here it is used to be LAL_MTSUN_SI
     f = fHz * gt * M  # Frequency in geometric units
-    q = (1.0 + jnp.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+    q = (1.0 + jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0)) - 2.0 * eta) / (2.0 * eta)
     m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
     m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
     Sperp = chip * (
diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 42aac9a..378f42d 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -31,7 +31,7 @@ def ROTATEY(angle, x, y, z):
 
 
 def FinalSpin0815(eta, chi1, chi2):
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
     m2 = 0.5 * (1.0 - Seta)
     m1s = m1 * m1
diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index fa008ef..8695fa6 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -25,7 +25,7 @@ def get_inspiral_phase(fM_s: Array, theta: Array, phase_coeffs: Array) -> Array:
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
     eta3 = eta2 * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -342,7 +342,7 @@ def get_intermediate_raw_phase(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -554,7 +554,7 @@ def get_mergerringdown_raw_phase(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
     chi_eff = mm1 * chi1 + mm2 * chi2
@@ -811,7 +811,7 @@ def get_inspiral_Amp(fM_s: Array, theta: Array, amp_coeffs: Array) -> Array:
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1018,7 +1018,7 @@ def get_intermediate_Amp(
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1212,7 +1212,7 @@ def get_mergerringdown_Amp(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1331,7 +1331,7 @@ def _gen_IMRPhenomXAS(
 
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
 
diff --git a/src/ripplegw/waveforms/IMRPhenomX_utils.py b/src/ripplegw/waveforms/IMRPhenomX_utils.py
index a8f8c48..2298c3f 100644
--- a/src/ripplegw/waveforms/IMRPhenomX_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomX_utils.py
@@ -20,7 +20,7 @@ def get_cutoff_fMs(m1, m2, chi1, chi2):
     # m1Sq = m1_s * m1_s
     # m2Sq = m2_s * m2_s
 
-    delta = jnp.sqrt(1.0 - 4.0 * eta_s)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta_s, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
 
@@ -432,7 +432,7 @@ def Eqspin_CV(EqSpin_coeffs, eta, S):
 
 def Uneqspin_CV(EqSpin_coeffs, eta, S, chia):
     chia2 = chia * chia
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     eta2 = eta * eta
     eta3 = eta2 * eta
     eta4 = eta3 * eta
@@ -522,7 +522,7 @@ def Amp_Eqspin_CV(EqSpin_coeffs, eta, S):
 
 
 def Amp_Uneqspin_CV(UneqSpin_coeffs, eta, S, chia):
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     return (
         chia
         * delta
-- 
2.43.0


From 19c91d96e21bb4abf0e270a5c32e2cf8a0f9aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:58 +0000
Subject: [PATCH 7/9] fix: keep arccos arguments of the precessing frame inside
 [-1, 1]

---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 378f42d..7b3a1d2 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -90,7 +90,7 @@ def convert_spins(
     J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
     J0 = jnp.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
 
-    thetaJ_sf = jnp.arccos(J0z_sf / J0)
+    thetaJ_sf = jnp.arccos(jnp.clip(J0z_sf / J0, -1.0, 1.0))
 
     phiJ_sf = jnp.arctan2(J0y_sf, J0x_sf)
 
@@ -125,7 +125,7 @@ def convert_spins(
     tmp_x, tmp_y, tmp_z = ROTATEY(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
     tmp_x, tmp_y, tmp_z = ROTATEZ(kappa, tmp_x, tmp_y, tmp_z)
     Nx_Jf, Nz_Jf = tmp_x, tmp_z
-    thetaJN = jnp.arccos(Nz_Jf)
+    thetaJN = jnp.arccos(jnp.clip(Nz_Jf, -1.0, 1.0))
 
     # Finally, we need to redefine the polarizations:
     # PhenomP's polarizations are defined following Arun et al (arXiv:0810.5336)
-- 
2.43.0


From 2b1416b29edc9c0faa6ad682f094d29161726b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 8/9] fix: noise curves are infinite, not NaN, next to infinite
 table entries

---
 src/ripplegw/noise.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ripplegw/noise.py b/src/ripplegw/noise.py
index 3e883fc..a42d071 100644
--- a/src/ripplegw/noise.py
+++ b/src/ripplegw/noise.py
@@ -74,14 +74,18 @@ def _load_noise(
 
     Sns[Sns == 0.0] = np.inf
 
+    # Interpolating next to an infinite entry gives nan (inf - inf): interpolate
+    # a finite table instead, and restore inf around the infinite entries
+    infinite = jnp.array(np.isinf(Sns), dtype=float)
     fs = jnp.array(fs)
-    Sns = jnp.array(Sns)
+    Sns = jnp.array(np.where(np.isinf(Sns), 0.0, Sns))
     f_range = (fs[0], fs[-1])
 
-    return (
-        jax.jit(lambda f: jnp.interp(f, fs, Sns, left=jnp.inf, right=jnp.inf)),
-        f_range,
-    )
+    def Sn(f):
+        psd = jnp.interp(f, fs, Sns, left=jnp.inf, right=jnp.inf)
+        return jnp.where(jnp.interp(f, fs, infinite) > 0, jnp.inf, psd)
+
+    return jax.jit(Sn), f_range
 
 
 Sn_aLIGO, f_range_aLIGO = _load_noise("aLIGO", asd=True)
-- 
2.43.0


From b4fed6a7aec3d784c1d2ae3c5ac575ae926daa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:34 +0000
Subject: [PATCH 9/9] fix: padding lengths were one too short when rounding put
 a quotient below its integer

---
 src/ripplegw/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ripplegw/__init__.py b/src/ripplegw/__init__.py
index 6b79746..0a9187d 100644
--- a/src/ripplegw/__init__.py
+++ b/src/ripplegw/__init__.py
@@ -365,9 +365,10 @@ def get_eff_pads(fs: Array) -> Tuple[Array, Array]:
             "function will thus yield inaccurate results when used with fft/ifft."
         )
 
-    N = 2 * jnp.array(fs[-1] / df - 1).astype(int)
-    pad_low = jnp.zeros(jnp.array(fs[0] / df).astype(int))
-    pad_high = jnp.zeros(N - jnp.array(fs[-1] / df).astype(int))
+    # Round, since the quotients can lie slightly below the integers they represent
+    N = 2 * jnp.round(fs[-1] / df - 1).astype(int)
+    pad_low = jnp.zeros(jnp.round(fs[0] / df).astype(int))
+    pad_high = jnp.zeros(N - jnp.round(fs[-1] / df).astype(int))
     return pad_low, pad_high
 
 
-- 
2.43.0

