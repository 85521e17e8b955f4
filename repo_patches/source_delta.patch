From f1abc1b726800aa4ca21c73ae6ba4a10278b55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 01/10] fix: start chemical_potential from the zero-temperature
 solution

The secant search started from (n/2, n), which has nothing to do with the
chemical potential: at low temperature or for large densities it wandered
off, so that chemical_potential panicked or did not return in any
reasonable time. Start it from the zero-temperature chemical potential, which
bounds the root from above.
---
 qcd-sme/src/qcd/thermal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 24efcff..16a9f37 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -320,9 +320,14 @@ pub mod quark {
         if n == 0. {
             return 0.;
         }
+        // At finite temperature the chemical potential is always smaller than at zero
+        // temperature, and the charge density is convex. Approaching the root from above
+        // then makes the secant method converge even when the density is nearly
+        // flat below the quark mass.
+        let mu0 = chemical_potential_zero_temp(m, n);
         find_root(
             &|mu| n - charge_density_with_method(m, beta, mu, integral),
-            (0.5 * n, n),
+            (1.1 * mu0, mu0),
             integral.get_tol(),
             1000,
         )
-- 
2.43.0


From 3169bab9bc2565b6a46eb39383154cffc3b69eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 02/10] fix: derive the quark data of a FieldConfig from its
 public fields

The number of colors, the gluon mass and the quark list of a FieldConfig are
public, but the ratios used by the *_w_field_config functions were computed
once in FieldConfig::new: changing a field afterwards left the vacuum part of
the result at the old masses and couplings.
---
 qcd-sme/src/qcd/gluon.rs   |  8 ++++----
 qcd-sme/src/qcd/thermal.rs | 36 ++++++++++++------------------------
 qcd-sme/src/qcd/types.rs   | 19 ++++++++-----------
 3 files changed, 24 insertions(+), 39 deletions(-)

diff --git a/qcd-sme/src/qcd/gluon.rs b/qcd-sme/src/qcd/gluon.rs
index 11d6a28..7996602 100644
--- a/qcd-sme/src/qcd/gluon.rs
+++ b/qcd-sme/src/qcd/gluon.rs
@@ -357,7 +357,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q(s_q) * qi.nf_div_nc;
         }
@@ -370,7 +370,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_sep(s, ln_s, ln_s_pl_1, f0, xi);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q(s_q) * qi.nf_div_nc;
         }
@@ -407,7 +407,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q_crossed(s_q) * qi.nf_div_nc;
         }
@@ -425,7 +425,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_sep(s, ln_s, ln_s_pl_1, f0, xi);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q_crossed(s_q) * qi.nf_div_nc;
         }
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 16a9f37..f6a054f 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -108,8 +108,7 @@ pub mod gluon {
         let sdim = om * om + (p * p).into();
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                     om, p, qi.mq, beta, mu,
@@ -135,8 +134,7 @@ pub mod gluon {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                     om, p, qi.mq, beta, mu,
@@ -206,8 +204,7 @@ pub mod gluon {
         let sdim = om * om + (p * p).into();
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                     om, p, qi.mq, mu,
@@ -229,8 +226,7 @@ pub mod gluon {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                     om, p, qi.mq, mu,
@@ -475,8 +471,7 @@ pub mod zero_matsubara {
             let sdim = p * p;
             let s = sdim / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                         p, qi.mq, beta, mu,
@@ -501,8 +496,7 @@ pub mod zero_matsubara {
             let sdim = p * p;
             let s = sdim / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                         p, qi.mq, beta, mu,
@@ -565,8 +559,7 @@ pub mod zero_matsubara {
             let m = config.gluon;
             let s = p * p / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                         p, qi.mq, mu,
@@ -586,8 +579,7 @@ pub mod zero_matsubara {
             let m = config.gluon;
             let s = p * p / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                         p, qi.mq, mu,
@@ -746,8 +738,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                         om, qi.mq, beta, mu,
@@ -772,8 +763,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                         om, qi.mq, beta, mu,
@@ -837,8 +827,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                         om, qi.mq, mu,
@@ -859,8 +848,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                         om, qi.mq, mu,
diff --git a/qcd-sme/src/qcd/types.rs b/qcd-sme/src/qcd/types.rs
index c012499..ca30178 100644
--- a/qcd-sme/src/qcd/types.rs
+++ b/qcd-sme/src/qcd/types.rs
@@ -11,22 +11,19 @@ pub struct FieldConfig {
     /// Quark mass configuration: number of quarks (`quarks[i].0`) with a given
     /// mass parameter (`quarks[i].1`).
     pub quarks: Vec<(NFTYPE, R)>,
-    // (nf, mq, nf/nc, mq/m)
-    pub(crate) quarks_internal: Vec<QuarkInternal>,
 }
 
 impl FieldConfig {
     pub fn new(nc: NCTYPE, gluon: R, quarks: Vec<(NFTYPE, R)>) -> Self {
-        let quarks_internal = quarks
+        Self { nc, gluon, quarks }
+    }
+
+    // (nf, mq, nf/nc, (mq/m)^2). Computed from the public fields every time, so that
+    // it never goes out of sync with them.
+    pub(crate) fn quarks_internal(&self) -> impl Iterator<Item = QuarkInternal> + '_ {
+        self.quarks
             .iter()
-            .map(|&(nf, mq)| QuarkInternal::new(nc, gluon, nf, mq))
-            .collect();
-        Self {
-            nc,
-            gluon,
-            quarks,
-            quarks_internal,
-        }
+            .map(|&(nf, mq)| QuarkInternal::new(self.nc, self.gluon, nf, mq))
     }
 }
 
-- 
2.43.0


From 2aa0a2bf0ea544b01f9ba5853f49bb3e1b7c05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 03/10] fix: honor a customized integration method in the
 Matsubara limit

The zero_matsubara gluon functions replace the default tolerance by a larger one
unless the user customized the integration method, but the test compared the
current default method with itself: set_default_tol_integral and
set_default_max_iter_integral could never be detected and the tolerance set by the user
was discarded. Compare with the pristine defaults instead.
---
 qcd-sme/src/consts.rs                         |  6 +++--
 .../src/low_level/oneloop/thermal/gluon.rs    | 27 ++++++++++---------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/qcd-sme/src/consts.rs b/qcd-sme/src/consts.rs
index a747912..4321510 100644
--- a/qcd-sme/src/consts.rs
+++ b/qcd-sme/src/consts.rs
@@ -98,7 +98,8 @@ pub(crate) fn m_quark() -> R {
 }
 
 /// The default tolerance for numerical integrals.
-static mut TOL_INTEGRAL: R = 1E-10;
+static mut TOL_INTEGRAL: R = DEFAULT_TOL_INTEGRAL;
+pub(crate) const DEFAULT_TOL_INTEGRAL: R = 1E-10;
 
 /// Get the default tolerance for numerical integrals. Equals `1E-10` if never
 /// changed.
@@ -127,7 +128,8 @@ pub(crate) fn tol_integral() -> R {
 }
 
 /// The default maximum number of iterations for numerical integrals.
-static mut MAX_ITER_INTEGRAL: u32 = 50;
+static mut MAX_ITER_INTEGRAL: u32 = DEFAULT_MAX_ITER_INTEGRAL;
+pub(crate) const DEFAULT_MAX_ITER_INTEGRAL: u32 = 50;
 
 /// Get the default maximum number of iterations for numerical integrals.
 /// Equals `50` if never changed.
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index fe9890b..7f921d7 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -576,7 +576,8 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, max_iter_integral, tol_integral,
+            get_default_integration_method, matsubara_reg, DEFAULT_MAX_ITER_INTEGRAL,
+            DEFAULT_TOL_INTEGRAL,
         };
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
@@ -764,10 +765,10 @@ pub mod zero_matsubara {
         // the error meaningfully, since the error due to EPS being non zero is larger
         // by at least two orders of magnitude (given the defaults at the time of writing).
         pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -775,10 +776,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_glue_t_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -786,10 +787,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -797,10 +798,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_t_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -808,10 +809,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -819,10 +820,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
-- 
2.43.0


From 15adf18e95fd257d7e9c03b2ea8847e60fdc8197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 04/10] fix: keep flat stretches of the phase boundary in the
 confined phase

Whenever the temperature matched that of a boundary point with a smaller
chemical potential, is_deconfined_phase compared the chemical potentials, so
that a point lying on (or below) a boundary with a plateau was reported as
deconfined. Interpolating covers that case correctly.
---
 tc_long_prop/src/lib.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tc_long_prop/src/lib.rs b/tc_long_prop/src/lib.rs
index 514948f..160e09d 100644
--- a/tc_long_prop/src/lib.rs
+++ b/tc_long_prop/src/lib.rs
@@ -159,16 +159,12 @@ pub fn is_deconfined_phase(mu: R, t: R, phase_boundary: &[(R, R)]) -> bool {
     }
 
     // We scan from lower to higher chemical potentials. If the chemical
-    // potentials match we compare temperatures, if the temperatures match
-    // we compare chemical potentials. Otherwise we interpolate (read below
-    // and compare temperatures.
+    // potentials match we compare temperatures. Otherwise we interpolate (read
+    // below) and compare temperatures.
     for (i, (mmu, tt)) in phase_boundary.iter().enumerate() {
         if *mmu == mu {
             return t > *tt;
         }
-        if *tt == t {
-            return mu > *mmu;
-        }
         if *mmu > mu {
             // mmu is the smallest chemical potential in our set greater than mu,
             // therefore mu0 must be the largest chemical potential in our set less
-- 
2.43.0


From 5b6f77ff38efc9c25c78ee1c9308ceb6b6210922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 05/10] fix: regularize the ghost self-energy in the Matsubara
 limit

The integrand of the zero-Matsubara-frequency ghost self-energy is singular and
the adaptive quadrature returns garbage which depends on the iteration limit (and
takes seconds). As done for the gluon, integrate the ordinary thermal integrand at
the Matsubara regulator instead.
---
 qcd-sme/src/low_level/oneloop/thermal/ghost.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/qcd-sme/src/low_level/oneloop/thermal/ghost.rs b/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
index e8cd449..92bd204 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/ghost.rs
@@ -94,7 +94,7 @@ pub mod zero_matsubara {
 
     mod native {
         use super::inlines;
-        use crate::consts::get_default_integration_method;
+        use crate::consts::{get_default_integration_method, matsubara_reg};
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
 
@@ -108,10 +108,18 @@ pub mod zero_matsubara {
             beta: R,
             integral: Integral,
         ) -> R {
+            // As for the gluon, the integrand is singular in the Matsubara limit:
+            // use the ordinary thermal function with a small frequency instead.
             integrate(
                 |t| {
-                    inlines::self_energy_thermal_part_landau_i((1. - t) / t, p, m, beta).re
-                        / (t * t)
+                    super::super::inlines::self_energy_thermal_part_landau_i(
+                        (1. - t) / t,
+                        matsubara_reg(),
+                        p,
+                        m,
+                        beta,
+                    )
+                    .re / (t * t)
                 },
                 (0., 1.),
                 integral,
-- 
2.43.0


From 17e9cb33862a7d1958c93f2692ba295e79b14e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 06/10] fix: return zero from the zero-temperature quark loop
 when |mu| equals the quark mass

The Fermi momentum vanishes there, and integrating over an empty range does
not terminate.
---
 qcd-sme/src/low_level/oneloop/thermal/gluon.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index 7f921d7..a6f50ac 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -165,7 +165,7 @@ mod native {
         mu: R,
         integral: Integral,
     ) -> C {
-        if mu.abs() < mq.abs() {
+        if mu.abs() <= mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
@@ -182,7 +182,7 @@ mod native {
         mu: R,
         integral: Integral,
     ) -> C {
-        if mu.abs() < mq.abs() {
+        if mu.abs() <= mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
@@ -714,7 +714,7 @@ pub mod zero_matsubara {
             mu: R,
             integral: Integral,
         ) -> R {
-            if mu.abs() < mq.abs() {
+            if mu.abs() <= mq.abs() {
                 return 0.;
             };
             integrate(
@@ -739,7 +739,7 @@ pub mod zero_matsubara {
             mu: R,
             integral: Integral,
         ) -> R {
-            if mu.abs() < mq.abs() {
+            if mu.abs() <= mq.abs() {
                 return 0.;
             };
             integrate(
@@ -1161,7 +1161,7 @@ pub mod zero_momentum {
             mu: R,
             integral: Integral,
         ) -> C {
-            if mu.abs() < mq.abs() {
+            if mu.abs() <= mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
@@ -1180,7 +1180,7 @@ pub mod zero_momentum {
             mu: R,
             integral: Integral,
         ) -> C {
-            if mu.abs() < mq.abs() {
+            if mu.abs() <= mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
-- 
2.43.0


From 53aa513f21eb8323c17adefc4253561235c317f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 07/10] fix: evaluate the distributions of complex energies
 where the exponential overflows

---
 qcd-sme/src/common/thermal.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/qcd-sme/src/common/thermal.rs b/qcd-sme/src/common/thermal.rs
index 1e7e25a..32790b2 100644
--- a/qcd-sme/src/common/thermal.rs
+++ b/qcd-sme/src/common/thermal.rs
@@ -174,7 +174,13 @@ pub(crate) mod inlines {
         beta: R,
         mu: T2,
     ) -> T1 {
-        (statistic_distribution_exponential(en, beta, mu) + 1.).inv()
+        // A complex exponential that overflows has no inverse: always use the decaying one
+        if en.re() > mu.re() {
+            let e = statistic_distribution_exponential(-en, beta, -mu);
+            e / (e + 1.)
+        } else {
+            (statistic_distribution_exponential(en, beta, mu) + 1.).inv()
+        }
     }
 
     #[inline(always)]
@@ -195,8 +201,7 @@ pub(crate) mod inlines {
         beta: R,
         mu: T2,
     ) -> T1 {
-        (statistic_distribution_exponential(en, beta, mu) + 1.).inv()
-            + (statistic_distribution_exponential(en, beta, -mu) + 1.).inv()
+        fermi_distribution(en, beta, mu) + fermi_distribution(en, beta, -mu)
     }
 
     #[inline(always)]
@@ -212,7 +217,12 @@ pub(crate) mod inlines {
 
     #[inline(always)]
     pub fn fermi_distribution_zero_chempot<T: Num>(en: T, beta: R) -> T {
-        (statistic_distribution_exponential_zero_chempot(en, beta) + 1.).inv()
+        if en.re() > 0. {
+            let e = statistic_distribution_exponential_zero_chempot(-en, beta);
+            e / (e + 1.)
+        } else {
+            (statistic_distribution_exponential_zero_chempot(en, beta) + 1.).inv()
+        }
     }
 
     #[inline(always)]
@@ -221,11 +231,21 @@ pub(crate) mod inlines {
         beta: R,
         mu: T2,
     ) -> T1 {
-        (statistic_distribution_exponential(en, beta, mu) - 1.).inv()
+        if en.re() > mu.re() {
+            let e = statistic_distribution_exponential(-en, beta, -mu);
+            e / (-e + 1.)
+        } else {
+            (statistic_distribution_exponential(en, beta, mu) - 1.).inv()
+        }
     }
 
     #[inline(always)]
     pub fn bose_distribution_zero_chempot<T: Num>(en: T, beta: R) -> T {
-        (statistic_distribution_exponential_zero_chempot(en, beta) - 1.).inv()
+        if en.re() > 0. {
+            let e = statistic_distribution_exponential_zero_chempot(-en, beta);
+            e / (-e + 1.)
+        } else {
+            (statistic_distribution_exponential_zero_chempot(en, beta) - 1.).inv()
+        }
     }
 }
-- 
2.43.0


From 504815237071a87b11fc084c40f9cbac43e474b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 08/10] fix: return zero, not NaN, from fermi_momentum when the
 chemical potential equals the mass

---
 qcd-sme/src/common/thermal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcd-sme/src/common/thermal.rs b/qcd-sme/src/common/thermal.rs
index 32790b2..ea86dc7 100644
--- a/qcd-sme/src/common/thermal.rs
+++ b/qcd-sme/src/common/thermal.rs
@@ -165,7 +165,7 @@ pub(crate) mod inlines {
 
     #[inline(always)]
     pub fn fermi_momentum(m: R, mu: R) -> R {
-        mu.mul_add(mu, -(m * m)).sqrt()
+        ((mu - m) * (mu + m)).sqrt()
     }
 
     #[inline(always)]
-- 
2.43.0


From 0a7640be8c4b10bd521e71afb7ffc622707fabda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 09/10] fix: compute the charge density without cancellation at
 high temperature

---
 qcd-sme/src/qcd/thermal.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index f6a054f..a83c31a 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -354,11 +354,13 @@ pub mod quark {
 
         pub fn charge_density_i(q: R, m: R, beta: R, mu: R) -> R {
             let en = energy(q, m);
-            (nc() as R)
-                * q
-                * q
-                * (fermi_distribution(en, beta, mu) - fermi_distribution(en, beta, -mu))
-                / (PI2)
+            // fermi_distribution(en, beta, mu) - fermi_distribution(en, beta, -mu), without
+            // the cancellation between the two when mu is small with respect to 1 / beta
+            let amu = mu.abs();
+            let diff = fermi_distribution(en, beta, amu)
+                * fermi_distribution(-en, beta, amu)
+                * -(-2. * beta * amu).exp_m1();
+            (nc() as R) * q * q * diff.copysign(mu) / (PI2)
         }
     }
 }
-- 
2.43.0


From d53b0811b34dbec242d74386b84d8cb0f6b2517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 10/10] fix: integrate the charge density in units of its own
 momentum scale

---
 qcd-sme/src/qcd/thermal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index a83c31a..405740f 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -292,8 +292,11 @@ pub mod quark {
     const PI2: R = PI * PI;
 
     pub fn charge_density_with_method(m: R, beta: R, mu: R, integral: Integral) -> R {
+        // Momenta are integrated over in units of the scale that cuts off the integrand, since
+        // the error estimates are not reliable if most of the integration range is empty
+        let scale = 1. / beta + m.abs() + mu.abs();
         integrate(
-            |t| inlines::charge_density_i((1. - t) / t, m, beta, mu) / (t * t),
+            |t| inlines::charge_density_i(scale * (1. - t) / t, m, beta, mu) * scale / (t * t),
             (0., 1.),
             integral,
         )
-- 
2.43.0

