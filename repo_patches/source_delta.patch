From abbd6a1f70faa9179610942ec5b1ed1bc3b60716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:50 +0000
Subject: [PATCH 01/62] fix: write the asymmetric axis and boundary arrays of
 VmecINDATA as arrays

std::optional's value() was intended, but Eigen's value() was called, which
asserts (or writes a single number) for anything that is not a 1x1 matrix.
---
 .../cpp/vmecpp/common/vmec_indata/vmec_indata.cc     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index cd3a0e9..b53825f 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -312,8 +312,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(raxis_c, "/indata/raxis_c", file);
   WriteH5Dataset(zaxis_s, "/indata/zaxis_s", file);
   if (lasym) {
-    WriteH5Dataset(raxis_s->value(), "/indata/raxis_s", file);
-    WriteH5Dataset(zaxis_c->value(), "/indata/zaxis_c", file);
+    WriteH5Dataset(raxis_s.value(), "/indata/raxis_s", file);
+    WriteH5Dataset(zaxis_c.value(), "/indata/zaxis_c", file);
   }
 
   // 2D matrices
@@ -321,8 +321,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(rbc, "/indata/rbc", file);
   WriteH5Dataset(zbs, "/indata/zbs", file);
   if (lasym) {
-    WriteH5Dataset(rbs->value(), "/indata/rbs", file);
-    WriteH5Dataset(zbc->value(), "/indata/zbc", file);
+    WriteH5Dataset(rbs.value(), "/indata/rbs", file);
+    WriteH5Dataset(zbc.value(), "/indata/zbc", file);
   }
 
   return absl::OkStatus();
@@ -1200,8 +1200,8 @@ absl::StatusOr<std::string> VmecINDATA::ToJson() const {
   output["raxis_c"] = raxis_c;
   output["zaxis_s"] = zaxis_s;
   if (lasym) {
-    output["raxis_s"] = raxis_s->value();
-    output["zaxis_c"] = zaxis_c->value();
+    output["raxis_s"] = raxis_s.value();
+    output["zaxis_c"] = zaxis_c.value();
   }
 
   // (Initial Guess for) Boundary Geometry
-- 
2.43.0


From 6dff2a59890f4901bbe8469c0fa4a650f806ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:50 +0000
Subject: [PATCH 02/62] fix: evaluate the whole poloidal and toroidal range in
 the magnetic axis guess

For lasym runs only the points in [0, pi] and half of the toroidal planes were
filled in, and for an odd number of toroidal planes one plane was left at zero.
---
 .../vmec/boundaries/guess_magnetic_axis.cc    | 128 ++++++++++--------
 1 file changed, 70 insertions(+), 58 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
index 14d453c..38593d1 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
@@ -227,8 +227,16 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // inverse Fourier transforms:
   // evaluate R, Z, dR/dTheta and dZ/dTheta at radial locations ns12 and ns-1
+  // NOTE: The poloidal basis is only tabulated on [0, pi]. For
+  // non-stellarator-symmetric runs, the points in ]pi, 2 pi[ are obtained from
+  // the parity of the basis functions.
+  const int num_theta = s.lasym ? s.nThetaEven : s.nThetaReduced;
   for (int k = 0; k < s.nZeta; ++k) {
-    for (int l = 0; l < s.nThetaReduced; ++l) {
+    for (int l = 0; l < num_theta; ++l) {
+      const bool reflected = l >= s.nThetaReduced;
+      const int l_basis = reflected ? s.nThetaEven - l : l;
+      const double odd_parity = reflected ? -1.0 : 1.0;
+
       // set target storage to zero
       w.r_lcfs[k][l] = 0.0;
       w.z_lcfs[k][l] = 0.0;
@@ -242,83 +250,86 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
       for (int m = 0; m < s.mpol; ++m) {
         for (int n = 0; n <= s.ntor; ++n) {
-          int idx_ml = m * s.nThetaReduced + l;
+          int idx_ml = m * s.nThetaReduced + l_basis;
           int idx_kn = k * (s.nnyq2 + 1) + n;
           int idx_mn = m * (s.ntor + 1) + n;
 
           const double basis_norm = 1.0 / (t.mscale[m] * t.nscale[n]);
 
-          w.r_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
-          w.z_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+          const double cosmu = t.cosmu[idx_ml];
+          const double sinmu = odd_parity * t.sinmu[idx_ml];
+          const double cosmum = t.cosmum[idx_ml];
+          const double sinmum = odd_parity * t.sinmum[idx_ml];
+
+          w.r_lcfs[k][l] += basis_norm * rbcc[idx_mn] * cosmu * t.cosnv[idx_kn];
+          w.z_lcfs[k][l] += basis_norm * zbsc[idx_mn] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rbcc[idx_mn] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zbsc[idx_mn] * cosmum * t.cosnv[idx_kn];
           w.r_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * cosmu * t.cosnv[idx_kn];
           w.z_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * cosmum * t.cosnv[idx_kn];
           if (s.lthreed) {
-            w.r_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.sinnv[idx_kn];
-            w.z_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.sinnv[idx_kn];
-            w.d_r_d_theta_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            w.d_z_d_theta_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+            w.r_lcfs[k][l] +=
+                basis_norm * rss_boundary[m][n] * sinmu * t.sinnv[idx_kn];
+            w.z_lcfs[k][l] +=
+                basis_norm * zcs_boundary[m][n] * cosmu * t.sinnv[idx_kn];
+            w.d_r_d_theta_lcfs[k][l] +=
+                basis_norm * rss_boundary[m][n] * cosmum * t.sinnv[idx_kn];
+            w.d_z_d_theta_lcfs[k][l] +=
+                basis_norm * zcs_boundary[m][n] * sinmum * t.sinnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rss_half[m][n] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * rss_half[m][n] * sinmu * t.sinnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcs_half[m][n] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
-            w.d_r_d_theta_half[k][l] += basis_norm * rss_half[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            w.d_z_d_theta_half[k][l] += basis_norm * zcs_half[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * zcs_half[m][n] * cosmu * t.sinnv[idx_kn];
+            w.d_r_d_theta_half[k][l] +=
+                basis_norm * rss_half[m][n] * cosmum * t.sinnv[idx_kn];
+            w.d_z_d_theta_half[k][l] +=
+                basis_norm * zcs_half[m][n] * sinmum * t.sinnv[idx_kn];
           }
           if (s.lasym) {
-            w.r_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.cosnv[idx_kn];
-            w.z_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.cosnv[idx_kn];
-            w.d_r_d_theta_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
-            w.d_z_d_theta_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+            w.r_lcfs[k][l] +=
+                basis_norm * rsc_boundary[m][n] * sinmu * t.cosnv[idx_kn];
+            w.z_lcfs[k][l] +=
+                basis_norm * zcc_boundary[m][n] * cosmu * t.cosnv[idx_kn];
+            w.d_r_d_theta_lcfs[k][l] +=
+                basis_norm * rsc_boundary[m][n] * cosmum * t.cosnv[idx_kn];
+            w.d_z_d_theta_lcfs[k][l] +=
+                basis_norm * zcc_boundary[m][n] * sinmum * t.cosnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * rsc_half[m][n] * sinmu * t.cosnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
-            w.d_r_d_theta_half[k][l] += basis_norm * rsc_half[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
-            w.d_z_d_theta_half[k][l] += basis_norm * zcc_half[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * zcc_half[m][n] * cosmu * t.cosnv[idx_kn];
+            w.d_r_d_theta_half[k][l] +=
+                basis_norm * rsc_half[m][n] * cosmum * t.cosnv[idx_kn];
+            w.d_z_d_theta_half[k][l] +=
+                basis_norm * zcc_half[m][n] * sinmum * t.cosnv[idx_kn];
             if (s.lthreed) {
               w.r_lcfs[k][l] +=
-                  basis_norm * rbcs[idx_mn] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * rbcs[idx_mn] * cosmu * t.sinnv[idx_kn];
               w.z_lcfs[k][l] +=
-                  basis_norm * zbss[idx_mn] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
-              w.d_r_d_theta_lcfs[k][l] += basis_norm * rbcs[idx_mn] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              w.d_z_d_theta_lcfs[k][l] += basis_norm * zbss[idx_mn] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
-
-              w.r_half[k][l] += basis_norm * rcs_half[m][n] * t.cosmu[idx_ml] *
-                                t.sinnv[idx_kn];
-              w.z_half[k][l] += basis_norm * zss_half[m][n] * t.sinmu[idx_ml] *
-                                t.sinnv[idx_kn];
-              w.d_r_d_theta_half[k][l] += basis_norm * rcs_half[m][n] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              w.d_z_d_theta_half[k][l] += basis_norm * zss_half[m][n] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * zbss[idx_mn] * sinmu * t.sinnv[idx_kn];
+              w.d_r_d_theta_lcfs[k][l] +=
+                  basis_norm * rbcs[idx_mn] * sinmum * t.sinnv[idx_kn];
+              w.d_z_d_theta_lcfs[k][l] +=
+                  basis_norm * zbss[idx_mn] * cosmum * t.sinnv[idx_kn];
+
+              w.r_half[k][l] +=
+                  basis_norm * rcs_half[m][n] * cosmu * t.sinnv[idx_kn];
+              w.z_half[k][l] +=
+                  basis_norm * zss_half[m][n] * sinmu * t.sinnv[idx_kn];
+              w.d_r_d_theta_half[k][l] +=
+                  basis_norm * rcs_half[m][n] * sinmum * t.sinnv[idx_kn];
+              w.d_z_d_theta_half[k][l] +=
+                  basis_norm * zss_half[m][n] * cosmum * t.sinnv[idx_kn];
             }
           }
         }  // n
@@ -379,7 +390,8 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // main loop in which, for each poloidal cutplane,
   // the new axis position is estimated
-  for (int k = 0; k < s.nZeta / 2 + 1; ++k) {
+  const int num_planes = s.lasym ? s.nZeta : s.nZeta / 2 + 1;
+  for (int k = 0; k < num_planes; ++k) {
     // compute grid extent
     const double min_r =
         *std::min_element(w.r_lcfs[k].begin(), w.r_lcfs[k].end());
@@ -414,7 +426,7 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
       double z_grid = min_z + index_z * delta_z;
 
       // early exit in some cases(?)
-      if (!s.lasym && (k == 0 || k == s.nZeta / 2)) {
+      if (!s.lasym && (k == 0 || 2 * k == s.nZeta)) {
         z_grid = 0.0;
         if (index_z > 0) {
           break;
@@ -454,7 +466,7 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
   // in order to always have a full toroidal module for the Fourier transform
   // below
   if (!s.lasym) {
-    for (int k = 1; k < s.nZeta / 2; ++k) {
+    for (int k = 1; 2 * k < s.nZeta; ++k) {
       const int k_reversed = (s.nZeta - k) % s.nZeta;
       w.new_r_axis[k_reversed] = w.new_r_axis[k];
       w.new_z_axis[k_reversed] = -w.new_z_axis[k];
-- 
2.43.0


From 76b30b2d9b275be10cba0da54d6915ca243e0aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:13 +0000
Subject: [PATCH 03/62] fix: use the effective poloidal stride for the inboard
 waist point

For lasym=true the surface arrays have nThetaEff points per toroidal slice,
so the waist was taken at an unrelated grid point.
---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 7e7f8ed..5a8a4c6 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3905,7 +3905,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
                               vmec_internal_results.r_o(index_outboard);
 
     const int index_inboard =
-        ((fc.ns - 1) * s.nZeta + k) * s.nThetaReduced + (s.nThetaReduced - 1);
+        ((fc.ns - 1) * s.nZeta + k) * s.nThetaEff + (s.nThetaReduced - 1);
     const double r_inboard = vmec_internal_results.r_e(index_inboard) +
                              vmec_internal_results.r_o(index_inboard);
 
-- 
2.43.0


From 30bbc88d40ea51892bcefc96868dcac10bf5dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:36 +0000
Subject: [PATCH 04/62] fix: integrate the half-grid flux derivative for the
 toroidal flux profile

phi(s) is the quadrature of phip on the half grid (as in educational_VMEC);
summing the full-grid values gave a wrong profile, not ending at phiedge,
for every non-uniform aphi.
---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 5a8a4c6..318756a 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1890,7 +1890,7 @@ void vmecpp::RecomputeToroidalFlux(
   m_vmec_internal_results.phiF[0] = 0.0;
   for (int jF = 1; jF < fc.ns; ++jF) {
     m_vmec_internal_results.phiF[jF] = m_vmec_internal_results.phiF[jF - 1] +
-                                       m_vmec_internal_results.phipF[jF - 1];
+                                       m_vmec_internal_results.phipH[jF - 1];
   }  // jF
 
   // now apply scaling
-- 
2.43.0


From 80ccca93b580c8d32a40b7553a4c19320b74a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:57 +0000
Subject: [PATCH 05/62] fix: extend d(B_u)/dv and d(B_v)/du to the full
 poloidal range for lasym

They were stored with the reduced poloidal stride and read with the full one,
so the radial current density in jxbout was wrong in asymmetric runs.
---
 .../output_quantities/output_quantities.cc    | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 318756a..8480096 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2150,7 +2150,6 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
   covariant_b_derivatives.bsubsv =
       RowMatrixXd::Zero(m_vmec_internal_results.num_full, s.nZnT);
 
-  // TODO(jons): no split into (non-)stellarator-symmetric contributions?
   covariant_b_derivatives.bsubuv =
       RowMatrixXd::Zero(m_vmec_internal_results.num_half, s.nZnT);
   covariant_b_derivatives.bsubvu =
@@ -2165,6 +2164,16 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
     bsubsv_a.resize(m_vmec_internal_results.num_full * s.nZnT);
   }
 
+  // contributions to bsubuv, bsubvu in the reduced poloidal layout
+  std::vector<double> bsubuv_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubvu_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubuv_a;
+  std::vector<double> bsubvu_a;
+  if (s.lasym) {
+    bsubuv_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+    bsubvu_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+  }
+
   std::vector<double> bsubu_filtered_s(
       m_vmec_internal_results.num_half * s.nZnT, 0.0);
   std::vector<double> bsubv_filtered_s(
@@ -2353,13 +2362,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
             const double tsinm1 = t.sinmum[idx_ml] * t.cosnv[idx_kn];
             const double tsinm2 = t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            covariant_b_derivatives.bsubvu(target_index) +=
-                tsinm1 * bsubvmn1 + tsinm2 * bsubvmn2;
+            bsubvu_s[target_index] += tsinm1 * bsubvmn1 + tsinm2 * bsubvmn2;
 
             const double tsinn1 = t.cosmu[idx_ml] * t.sinnvn[idx_kn];
             const double tsinn2 = t.sinmu[idx_ml] * t.cosnvn[idx_kn];
-            covariant_b_derivatives.bsubuv(target_index) +=
-                tsinn1 * bsubumn1 + tsinn2 * bsubumn2;
+            bsubuv_s[target_index] += tsinn1 * bsubumn1 + tsinn2 * bsubumn2;
 
             if (s.lasym) {
               const double tsin1 = t.sinmu[idx_ml] * t.cosnv[idx_kn];
@@ -2371,13 +2378,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
               const double tcosm1 = t.cosmum[idx_ml] * t.cosnv[idx_kn];
               const double tcosm2 = t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              covariant_b_derivatives.bsubvu(target_index) +=
-                  tcosm1 * bsubvmn3 + tcosm2 * bsubvmn4;
+              bsubvu_a[target_index] += tcosm1 * bsubvmn3 + tcosm2 * bsubvmn4;
 
               const double tcosn1 = t.sinmu[idx_ml] * t.sinnvn[idx_kn];
               const double tcosn2 = t.cosmu[idx_ml] * t.cosnvn[idx_kn];
-              covariant_b_derivatives.bsubuv(target_index) +=
-                  tcosn1 * bsubumn3 + tcosn2 * bsubumn4;
+              bsubuv_a[target_index] += tcosn1 * bsubumn3 + tcosn2 * bsubumn4;
             }  // lasym
           }  // l
         }  // k
@@ -2404,6 +2409,10 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
               bsubu_filtered_s[source_index] + bsubu_filtered_a[source_index];
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index] + bsubv_filtered_a[source_index];
+          covariant_b_derivatives.bsubuv(target_index) =
+              bsubuv_s[source_index] + bsubuv_a[source_index];
+          covariant_b_derivatives.bsubvu(target_index) =
+              bsubvu_s[source_index] + bsubvu_a[source_index];
         }  // l
         for (int l = s.nThetaReduced; l < s.nThetaEven; ++l) {
           const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
@@ -2417,6 +2426,13 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index_reversed] -
               bsubv_filtered_a[source_index_reversed];
+          // angular derivatives have the opposite parity
+          covariant_b_derivatives.bsubuv(target_index) =
+              -bsubuv_s[source_index_reversed] +
+              bsubuv_a[source_index_reversed];
+          covariant_b_derivatives.bsubvu(target_index) =
+              -bsubvu_s[source_index_reversed] +
+              bsubvu_a[source_index_reversed];
         }  // l
       }  // k
     }  // jH
@@ -2427,6 +2443,8 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
         const int idx_kl = jH * s.nZnT + kl;
         m_vmec_internal_results.bsubu(idx_kl) = bsubu_filtered_s[idx_kl];
         m_vmec_internal_results.bsubv(idx_kl) = bsubv_filtered_s[idx_kl];
+        covariant_b_derivatives.bsubuv(idx_kl) = bsubuv_s[idx_kl];
+        covariant_b_derivatives.bsubvu(idx_kl) = bsubvu_s[idx_kl];
       }  // kl
     }  // jH
   }
-- 
2.43.0


From 8276abf340b0b8aed4b327344da96e62c8d078e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:57 +0000
Subject: [PATCH 06/62] fix: sign of the toroidal component of the
 perpendicular current

J_perp = B x grad(p) / B^2 has J^v = -B_u p' / (sqrt(g) B^2); with the plus
sign the g_uv cross term of <|J_perp|^2> was subtracted instead of added.
---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 8480096..de04bde 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2648,7 +2648,7 @@ vmecpp::JxBOutFileContents vmecpp::ComputeJxBOutputFileContents(
           vmec_internal_results.bsubv(jHi * s.nZnT + kl);
 
       kperpu[kl] = 0.5 * (bsubv_outside + bsubv_inside) * pprime / sqgb2[kl];
-      kperpv[kl] = 0.5 * (bsubu_outside + bsubu_inside) * pprime / sqgb2[kl];
+      kperpv[kl] = -0.5 * (bsubu_outside + bsubu_inside) * pprime / sqgb2[kl];
 
       // --------
 
-- 
2.43.0


From 7d33711a7cc71a82905de5a883e3fa38d47f91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:25 +0000
Subject: [PATCH 07/62] fix: read B_s with the full poloidal stride in the
 symmetry decomposition

For lasym=true and nzeta > 1 the symmetric and antisymmetric parts of B_s were
formed from unrelated grid points, which spoiled the current density, Mercier
terms and parallel-current averages of asymmetric 3D runs.
---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index de04bde..f6f08f9 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2064,11 +2064,11 @@ vmecpp::SymmetryDecomposedCovariantB vmecpp::DecomposeCovariantBBySymmetry(
     // bs_a(v,u) = .5*( bs(v,u) + bs(-v,-u) )     ! * COS(mu - nv)
     for (int jF = 0; jF < vmec_internal_results.num_full; ++jF) {
       for (int kl = 0; kl < vmec_internal_results.nZnT_reduced; ++kl) {
-        const int source_index = jF * s.nZnT + kl;
-
         const int k = kl / s.nThetaReduced;
         const int l = kl % s.nThetaReduced;
 
+        const int source_index = jF * s.nZnT + (k * s.nThetaEven + l);
+
         const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
         const int k_reversed = (s.nZeta - k) % s.nZeta;
         const int kl_reversed = k_reversed * s.nThetaEven + l_reversed;
-- 
2.43.0


From a653abca25cd8c852ee77f37ddc2841c7293aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:25 +0000
Subject: [PATCH 08/62] fix: compute the energy decay history from an
 unmodified copy

The in-place expression read entries it had already overwritten.
---
 .../vmec/output_quantities/output_quantities.cc      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index f6f08f9..27a091c 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -4478,13 +4478,13 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
   }
   wout.itfsq = wout.fsqt.size();
   // First entry is the staring energy W
-  wout.wdot = ToEigenVector(fc.mhd_energy);
-  if (wout.wdot.size() > 1) {
+  const Eigen::VectorXd energy = ToEigenVector(fc.mhd_energy);
+  wout.wdot = energy;
+  if (energy.size() > 1) {
     // Compute decay rate wdot = -W/dt = (W[1:] - W[0:]) / W[1:]
-    wout.wdot.tail(wout.wdot.size() - 1) =
-        (wout.wdot.tail(wout.wdot.size() - 1) -
-         wout.wdot.head(wout.wdot.size() - 1))
-            .cwiseQuotient(wout.wdot.tail(wout.wdot.size() - 1));
+    wout.wdot.tail(energy.size() - 1) =
+        (energy.tail(energy.size() - 1) - energy.head(energy.size() - 1))
+            .cwiseQuotient(energy.tail(energy.size() - 1));
   }
   // -------------------
   // one-dimensional array quantities
-- 
2.43.0


From 97e4b1ca85e5da7a45b894e921a721c142fda41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:26 +0000
Subject: [PATCH 09/62] fix: initialise the asymmetric coefficients in a hot
 restart

FourierGeometry::InitFromState only copied the stellarator-symmetric part of
the state and of the boundary, so that a lasym hot restart started from a
different geometry (and kept a symmetric boundary).
---
 .../vmec/fourier_geometry/fourier_geometry.cc | 93 ++++++++++++++++++-
 .../vmec/fourier_geometry/fourier_geometry.h  |  6 +-
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc       |  8 +-
 3 files changed, 103 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
index 02c8ebf..153dcd6 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
@@ -176,7 +176,13 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
                                     const RowMatrixXd& lmns_full,
                                     const RadialProfiles& p,
                                     const VmecConstants& constants,
-                                    const Boundaries* b) {
+                                    const Boundaries* b,
+                                    const RowMatrixXd* rmns,
+                                    const RowMatrixXd* zmnc,
+                                    const RowMatrixXd* lmnc_full) {
+  const bool has_asymmetric_state = s_.lasym && rmns != nullptr &&
+                                    zmnc != nullptr && lmnc_full != nullptr;
+
   // b == nullptr -> free-boundary -> we also initialize the last surface;
   // otherwise skip the last surface here and grab it from b later
   const int max_ns_to_set_rz_on_from_state = (b == nullptr) ? ns : ns - 1;
@@ -211,6 +217,37 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
         }
       }
     }
+
+    if (has_asymmetric_state) {
+      const Eigen::VectorXd rmns_col = rmns->col(jF);
+      const std::vector<double> rmns_col_vector(
+          rmns_col.data(), rmns_col.data() + rmns_col.size());
+      std::vector<double> rmnsc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> rmncs_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.sin_to_sc_cs(rmns_col_vector, rmnsc_at_jF, rmncs_at_jF, s_.ntor,
+                      s_.mpol);
+
+      const Eigen::VectorXd zmnc_col = zmnc->col(jF);
+      const std::vector<double> zmnc_col_vector(
+          zmnc_col.data(), zmnc_col.data() + zmnc_col.size());
+      std::vector<double> zmncc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> zmnss_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.cos_to_cc_ss(zmnc_col_vector, zmncc_at_jF, zmnss_at_jF, s_.ntor,
+                      s_.mpol);
+
+      for (int m = 0; m < s_.mpol; ++m) {
+        for (int n = 0; n < s_.ntor + 1; ++n) {
+          const int idx_mn = m * (s_.ntor + 1) + n;
+          const int idx_jmn = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
+          rmnsc[idx_jmn] = rmnsc_at_jF[idx_mn];
+          zmncc[idx_jmn] = zmncc_at_jF[idx_mn];
+          if (s_.lthreed) {
+            rmncs[idx_jmn] = rmncs_at_jF[idx_mn];
+            zmnss[idx_jmn] = zmnss_at_jF[idx_mn];
+          }
+        }
+      }
+    }
   }
 
   // This loop always need to go over the full radial range
@@ -242,6 +279,29 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
         }
       }
     }
+
+    if (has_asymmetric_state) {
+      const Eigen::VectorXd lmnc_col = lmnc_full->col(jF);
+      const std::vector<double> lmnc_col_vector(
+          lmnc_col.data(), lmnc_col.data() + lmnc_col.size());
+      std::vector<double> lmncc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> lmnss_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.cos_to_cc_ss(lmnc_col_vector, lmncc_at_jF, lmnss_at_jF, s_.ntor,
+                      s_.mpol);
+
+      const double lambda_unscaling =
+          constants.lamscale / p.phipF[jF - r_.nsMinF1];
+      for (int m = 0; m < s_.mpol; ++m) {
+        for (int n = 0; n < s_.ntor + 1; ++n) {
+          const int idx_mn = m * (s_.ntor + 1) + n;
+          const int idx_jmn = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
+          lmncc[idx_jmn] = lmncc_at_jF[idx_mn] / lambda_unscaling;
+          if (s_.lthreed) {
+            lmnss[idx_jmn] = lmnss_at_jF[idx_mn] / lambda_unscaling;
+          }
+        }
+      }
+    }
   }
 
   // boundary from b, if present
@@ -264,6 +324,23 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
       std::copy(b->zbcs.begin(), b->zbcs.begin() + mnsize, zmncs_begin);
     }
 
+    if (s_.lasym) {
+      auto rmnsc_begin =
+          rmnsc.begin() + (jF - nsMin_) * s_.mpol * (s_.ntor + 1);
+      std::copy(b->rbsc.begin(), b->rbsc.begin() + mnsize, rmnsc_begin);
+      auto zmncc_begin =
+          zmncc.begin() + (jF - nsMin_) * s_.mpol * (s_.ntor + 1);
+      std::copy(b->zbcc.begin(), b->zbcc.begin() + mnsize, zmncc_begin);
+      if (s_.lthreed) {
+        auto rmncs_begin =
+            rmncs.begin() + (jF - nsMin_) * s_.mpol * (s_.ntor + 1);
+        std::copy(b->rbcs.begin(), b->rbcs.begin() + mnsize, rmncs_begin);
+        auto zmnss_begin =
+            zmnss.begin() + (jF - nsMin_) * s_.mpol * (s_.ntor + 1);
+        std::copy(b->zbss.begin(), b->zbss.begin() + mnsize, zmnss_begin);
+      }
+    }
+
     for (int m = 0; m < s_.mpol; ++m) {
       for (int n = 0; n < s_.ntor + 1; ++n) {
         int idx_fc = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
@@ -277,6 +354,14 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
           rmnss[idx_fc] *= basis_norm;
           zmncs[idx_fc] *= basis_norm;
         }
+        if (s_.lasym) {
+          rmnsc[idx_fc] *= basis_norm;
+          zmncc[idx_fc] *= basis_norm;
+          if (s_.lthreed) {
+            rmncs[idx_fc] *= basis_norm;
+            zmnss[idx_fc] *= basis_norm;
+          }
+        }
       }
     }
   }
@@ -301,6 +386,12 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
       if (s_.lthreed) {
         lmncs[idx_fc] = 0.0;
       }
+      if (s_.lasym) {
+        lmncc[idx_fc] = 0.0;
+        if (s_.lthreed) {
+          lmnss[idx_fc] = 0.0;
+        }
+      }
     }
   }
 }  // InitFromState
diff --git a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
index fa65a02..c2a0cdb 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
+++ b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
@@ -33,11 +33,15 @@ class FourierGeometry : public FourierCoeffs {
   // instead of from the Fourier coefficient matrices.
   // This latter use case applies to fixed-boundary hot-restart operation of
   // VMEC++.
+  // The non-stellarator-symmetric coefficients must be given if lasym is true.
   void InitFromState(const FourierBasisFastPoloidal &fb,
                      const RowMatrixXd &rmnc, const RowMatrixXd &zmns,
                      const RowMatrixXd &lmns_full, const RadialProfiles &p,
                      const VmecConstants &constants,
-                     const Boundaries *b = nullptr);
+                     const Boundaries *b = nullptr,
+                     const RowMatrixXd *rmns = nullptr,
+                     const RowMatrixXd *zmnc = nullptr,
+                     const RowMatrixXd *lmnc_full = nullptr);
 
   void extrapolateTowardsAxis();
 
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 27067a2..8c7567b 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -713,13 +713,17 @@ bool Vmec::InitializeRadial(
           // free-boundary hot restart: use all flux surfaces from initial state
           decomposed_x_[thread_id]->InitFromState(
               t_, initial_state->wout.rmnc, initial_state->wout.zmns,
-              initial_state->wout.lmns_full, *p_[thread_id], constants_);
+              initial_state->wout.lmns_full, *p_[thread_id], constants_,
+              nullptr, &initial_state->wout.rmns, &initial_state->wout.zmnc,
+              &initial_state->wout.lmnc_full);
         } else {
           // fixed-boundary hot restart: use inner flux surfaces from initial
           // state, and LCFS geometry from Boundaries (from INDATA)
           decomposed_x_[thread_id]->InitFromState(
               t_, initial_state->wout.rmnc, initial_state->wout.zmns,
-              initial_state->wout.lmns_full, *p_[thread_id], constants_, &b_);
+              initial_state->wout.lmns_full, *p_[thread_id], constants_, &b_,
+              &initial_state->wout.rmns, &initial_state->wout.zmnc,
+              &initial_state->wout.lmnc_full);
         }
       }
     } else {
-- 
2.43.0


From 01a2e8ed442be9b4493dad67197f394de21d2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:33 +0000
Subject: [PATCH 10/62] fix: check the array sizes of a hot-restart state

A restart state whose coefficient arrays do not match its own indata (or an
empty ns_array) was read out of bounds.
---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 8c7567b..de4ce91 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -83,12 +83,33 @@ absl::Status CheckInitialState(const vmecpp::HotRestartState& initial_state,
   }
 
   // check for matching `ns`
-  if (initial_state.indata.ns_array[initial_state.indata.ns_array.size() - 1] !=
-      indata.ns_array[0]) {
+  if (initial_state.indata.ns_array.size() == 0 ||
+      indata.ns_array.size() == 0 ||
+      initial_state.indata.ns_array[initial_state.indata.ns_array.size() - 1] !=
+          indata.ns_array[0]) {
     return absl::InvalidArgumentError(
         absl::StrCat(msg_start, "ns_array", msg_end));
   }
 
+  // check that the state itself has the sizes implied by the above
+  const int mnmax = indata.ntor + 1 + (indata.mpol - 1) * (2 * indata.ntor + 1);
+  const int ns = indata.ns_array[0];
+  const auto has_expected_shape = [&](const vmecpp::RowMatrixXd& coefficients) {
+    return coefficients.rows() == mnmax && coefficients.cols() == ns;
+  };
+  const vmecpp::WOutFileContents& wout = initial_state.wout;
+  if (!has_expected_shape(wout.rmnc) || !has_expected_shape(wout.zmns) ||
+      !has_expected_shape(wout.lmns_full)) {
+    return absl::InvalidArgumentError(
+        absl::StrCat(msg_start, "rmnc, zmns or lmns_full", msg_end));
+  }
+  if (indata.lasym &&
+      (!has_expected_shape(wout.rmns) || !has_expected_shape(wout.zmnc) ||
+       !has_expected_shape(wout.lmnc_full))) {
+    return absl::InvalidArgumentError(
+        absl::StrCat(msg_start, "rmns, zmnc or lmnc_full", msg_end));
+  }
+
   return absl::OkStatus();
 }
 }  // namespace
-- 
2.43.0


From f2c4f67f63aba485f9701025c78335f726736f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:53 +0000
Subject: [PATCH 11/62] fix: interpolate line-segment profiles in the interval
 that contains x

---
 .../vmec/radial_profiles/radial_profiles.cc   | 60 +++++++------------
 1 file changed, 22 insertions(+), 38 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 9bbd514..e98f5f2 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1055,18 +1055,19 @@ double RadialProfiles::evalLineSegment(const Eigen::VectorXd& splineKnots,
   if (n < 2 || n != static_cast<int>(splineValues.size())) {
     return 0.0;
   }
-  auto it = std::lower_bound(splineKnots.begin(), splineKnots.end(), x);
-  if (it >= (splineKnots.end() - 1)) {
-    // x is out of bounds (or x1 = it+1 would be out of bounds)
+  // first knot above x
+  auto it = std::upper_bound(splineKnots.begin(), splineKnots.end(), x);
+  if (it == splineKnots.end()) {
+    // x is at or above the last knot
     return splineValues[n - 1];
   }
   if (it == splineKnots.begin()) {
     // x is below the first knot
     return splineValues[0];
   }
-  const double x0 = *it;
-  const double x1 = *(it + 1);
-  int ilow = static_cast<int>(std::distance(splineKnots.begin(), it));
+  const double x0 = *(it - 1);
+  const double x1 = *it;
+  int ilow = static_cast<int>(std::distance(splineKnots.begin(), it)) - 1;
   const double y0 = splineValues[ilow];
   const double y1 = splineValues[ilow + 1];
   const double t = (x - x0) / (x1 - x0);
@@ -1081,40 +1082,23 @@ double RadialProfiles::evalLineSegmentIntegrated(
     return 0.0;
   }
 
-  auto integrate_segment = [](double x0, double x1, double y0, double y1) {
-    const double m = (y1 - y0) / (x1 - x0);
-    const double b = y0 - m * x0;
-    return m * 0.5 * (x1 * x1 - x0 * x0) + b * (x1 - x0);
+  // integral from the first knot to xi of the (clamped) line segments
+  auto integral_from_first_knot = [&](double xi) {
+    double result = 0.0;
+    double x0 = splineKnots[0];
+    double y0 = splineValues[0];
+    for (int idx = 1; idx < n && x0 < xi; ++idx) {
+      const double x1 = std::min(xi, splineKnots[idx]);
+      const double y1 = evalLineSegment(splineKnots, splineValues, x1);
+      result += 0.5 * (y0 + y1) * (x1 - x0);
+      x0 = x1;
+      y0 = y1;
+    }
+    // constant continuation outside the range of knots
+    return result + y0 * (xi - x0);
   };
 
-  double xi = x;
-  double result = 0.0;
-
-  if (xi <= splineKnots[0]) {
-    result += integrate_segment(0.0, xi, splineValues[0],
-                                evalLineSegment(splineKnots, splineValues, xi));
-    return result;
-  }
-
-  int idx = 0;
-  while (idx < n - 1 && xi > splineKnots[idx + 1]) {
-    result += integrate_segment(splineKnots[idx], splineKnots[idx + 1],
-                                splineValues[idx], splineValues[idx + 1]);
-    ++idx;
-  }
-
-  const double x0 = splineKnots[idx];
-  const double x1 = std::min(xi, splineKnots[idx + 1]);
-  const double y0 = splineValues[idx];
-  const double y1 = splineValues[idx + 1];
-  result += integrate_segment(x0, x1, y0, y1);
-
-  if (xi > splineKnots[n - 1]) {
-    result += integrate_segment(splineKnots[n - 1], xi, splineValues[n - 1],
-                                evalLineSegment(splineKnots, splineValues, xi));
-  }
-
-  return result;
+  return integral_from_first_knot(x) - integral_from_first_knot(0.0);
 }
 
 double RadialProfiles::evalNiceQuadratic(const Eigen::VectorXd& coeffs,
-- 
2.43.0


From d56da94c6c10b3b3669af5ec1d3bf8c60f257c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:07 +0000
Subject: [PATCH 12/62] fix: normalise the arctangent terms of the sum_atan
 profile

---
 .../vmec/radial_profiles/radial_profiles.cc   | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index e98f5f2..12822a3 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -692,25 +692,32 @@ double RadialProfiles::evalSumAtan(const Eigen::VectorXd& coeffs, double x) {
       ret += coeffs[17];
     }
   } else {
+    // 2/pi * atan(.) approaches 1 towards x = 1, where the branch above applies
+    constexpr double kTwoOverPi = 2.0 / M_PI;
     if (coeffs.size() >= 5) {
-      ret += coeffs[1] * std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
-                                   std::pow(1 - x, coeffs[4]));
+      ret += coeffs[1] * kTwoOverPi *
+             std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
+                       std::pow(1 - x, coeffs[4]));
     }
     if (coeffs.size() >= 9) {
-      ret += coeffs[5] * std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
-                                   std::pow(1 - x, coeffs[8]));
+      ret += coeffs[5] * kTwoOverPi *
+             std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
+                       std::pow(1 - x, coeffs[8]));
     }
     if (coeffs.size() >= 13) {
-      ret += coeffs[9] * std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
-                                   std::pow(1 - x, coeffs[12]));
+      ret += coeffs[9] * kTwoOverPi *
+             std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
+                       std::pow(1 - x, coeffs[12]));
     }
     if (coeffs.size() >= 17) {
-      ret += coeffs[13] * std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
-                                    std::pow(1 - x, coeffs[16]));
+      ret += coeffs[13] * kTwoOverPi *
+             std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
+                       std::pow(1 - x, coeffs[16]));
     }
     if (coeffs.size() >= 21) {
-      ret += coeffs[17] * std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
-                                    std::pow(1 - x, coeffs[20]));
+      ret += coeffs[17] * kTwoOverPi *
+             std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
+                       std::pow(1 - x, coeffs[20]));
     }
   }
 
-- 
2.43.0


From c4874dfa0920fb471039abe6bb63bf4d306e4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:59 +0000
Subject: [PATCH 13/62] fix: keep lamscale when a multigrid stage repeats the
 radial resolution

Repeated entries of ns_array are accepted by the input check, but the second
stage ran with lamscale = 0 and always failed, because the constants were
reset for every stage and only recomputed when ns changed.
---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index de4ce91..72adac5 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -317,8 +317,6 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
 
     const int max_grids = std::min(fc_.multi_ns_grid, maximum_multi_grid_step);
     for (int igrid = -jacob_off_; igrid < max_grids; igrid++) {
-      constants_.reset();
-
       // retrieve settings for (ns, ftol, niter) for current multi-grid
       // iteration
       if (igrid < 0) {
@@ -711,6 +709,9 @@ bool Vmec::InitializeRadial(
     }
 
     // COMPUTE INITIAL R, Z AND MAGNETIC FLUX PROFILES
+    // The constants are re-accumulated here and only here: a stage that keeps
+    // the radial resolution of the previous one also keeps its constants.
+    constants_.reset();
     for (int thread_id = 0; thread_id < num_threads_; ++thread_id) {
       p_[thread_id]->evalRadialProfiles(fc_.haveToFlipTheta, constants_);
     }
-- 
2.43.0


From 0e61b89551ded41319b4f10d8c4f3bd114f7fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:26 +0000
Subject: [PATCH 14/62] fix: accept the empty sparse list that all-zero
 boundary coefficients serialise to

A lasym input with all-zero rbs or zbc could be dumped to JSON but not
validated from it again.
---
 src/vmecpp/_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index f5518fc..6bba0c0 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -403,7 +403,10 @@ def sparse_to_dense_coefficients_implicit(
     (mpol, 2*ntor+1) shape from the maximum mode numbers OR return the original array if
     the input representation is already dense."""
     if isinstance(maybe_sparse_list, np.ndarray):
-        return maybe_sparse_list
+        if maybe_sparse_list.ndim != 1 or maybe_sparse_list.size > 0:
+            return maybe_sparse_list
+        # an empty sparse list that was already turned into an (empty) array
+        maybe_sparse_list = []
 
     mpol = 0
     ntor = 0
-- 
2.43.0


From b574bdcc498b62d2840fa576767938915c3708f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:39 +0000
Subject: [PATCH 15/62] fix: act on a bad Jacobian during the Python
 PARVMEC-style iteration

---
 src/vmecpp/_iteration.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/vmecpp/_iteration.py b/src/vmecpp/_iteration.py
index f0b8350..6b9f6b9 100644
--- a/src/vmecpp/_iteration.py
+++ b/src/vmecpp/_iteration.py
@@ -384,11 +384,13 @@ def solve_equilibrium(
                     res1 = fsq0
                 res0 = min(res0, fsq1)
                 res1 = min(res1, fsq0)
-                if fsq1 <= res0 and fsq0 <= res1:
-                    model.save_backup()
-                    saved_backup = True
-                elif (iter2 - iter1) > 10 and (
-                    fsq1 > _PARVMEC_BLOWUP * res0 or fsq0 > _PARVMEC_BLOWUP * res1
+                both_improved = fsq1 <= res0 and fsq0 <= res1
+                if (
+                    not both_improved
+                    and (iter2 - iter1) > 10
+                    and (
+                        fsq1 > _PARVMEC_BLOWUP * res0 or fsq0 > _PARVMEC_BLOWUP * res1
+                    )
                 ):
                     model.restore_backup()
                     delt0r /= 1.03
@@ -396,6 +398,21 @@ def solve_equilibrium(
                     bad_resets += 1
                     n_restarts += 1
                     restarted = True
+                elif rr == RestartReason.BAD_JACOBIAN:
+                    # overlapping surfaces reported by the forward model: the C++
+                    # RestartIteration reverts, cuts the step and counts it; only
+                    # the terminal restart check holds the iteration counter back.
+                    model.restore_backup()
+                    delt0r *= 0.9
+                    ijacob += 1
+                    iter1 = iter2
+                    if not both_improved:
+                        bad_resets += 1
+                    n_restarts += 1
+                    restarted = True
+                elif both_improved:
+                    model.save_backup()
+                    saved_backup = True
             elif robust:
                 # Common-ground control: PARVMEC's dual-residual permissive leash
                 # (revert gently, without counting toward the give-up escalation)
-- 
2.43.0


From 7a4a69d60b17fab5bffa50a8d1361d0a83740e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:41 +0000
Subject: [PATCH 16/62] fix: start VmecModel.solve from the current state after
 an evaluation with a bad Jacobian

---
 src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index b011b5b..5020dbe 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -391,6 +391,9 @@ class VmecModel {
 
   // Reference C++ inner iteration (the loop being ported), for verification.
   void Solve() const {
+    // A reason left over from a preceding Evaluate() must not make
+    // SolveEquilibriumLoop discard the current state.
+    vmec_->fc_.restart_reason = vmecpp::RestartReason::NO_RESTART;
     auto s = vmec_->SolveEquilibrium(vmecpp::VmecCheckpoint::NONE, INT_MAX);
     if (!s.ok()) {
       throw std::runtime_error(std::string(s.status().message()));
-- 
2.43.0


From d0679f26a1aa044922de9dd984e1471753993a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:29 +0000
Subject: [PATCH 17/62] fix: flip full-grid poloidal flux and iota together
 with the half-grid profiles

---
 .../cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 12822a3..1abe4da 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1205,6 +1205,12 @@ void RadialProfiles::evalRadialProfiles(bool haveToFlipTheta,
     const double toroidalFlux = std::min(torflux(fullGridPos), 1.0);
     iotaF[jF1 - r_.nsMinF1] = evalIotaProfile(toroidalFlux);
 
+    if (haveToFlipTheta) {
+      // same sign convention as for the half-grid profiles above
+      chipF[jF1 - r_.nsMinF1] = -chipF[jF1 - r_.nsMinF1];
+      iotaF[jF1 - r_.nsMinF1] = -iotaF[jF1 - r_.nsMinF1];
+    }
+
     // TODO(jons): this is still weird
     // TODO(jons): The particular amount of 2*pDamp can sometimes be adjusted in
     // the range 0...1 to yield faster convergence.
-- 
2.43.0


From 956e767edf12cb8569abac842d8a8ab7595c459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:29 +0000
Subject: [PATCH 18/62] fix: zmax_surf is the maximum over the whole boundary

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 27a091c..ce9f4c5 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3869,7 +3869,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
 
   result.rmax_surf = 0.0;
   result.rmin_surf = DBL_MAX;
-  result.zmax_surf = 0.0;
+  result.zmax_surf = -DBL_MAX;
   for (int kl = 0; kl < s.nZnT; ++kl) {
     const int lcfs_kl = (fc.ns - 1) * s.nZnT + kl;
     const double r =
@@ -3879,6 +3879,10 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
     result.rmax_surf = std::max(result.rmax_surf, r);
     result.rmin_surf = std::min(result.rmin_surf, r);
     result.zmax_surf = std::max(result.zmax_surf, z);
+    if (!s.lasym) {
+      // only half of the cross-section is stored; the other half has -Z
+      result.zmax_surf = std::max(result.zmax_surf, -z);
+    }
   }  // kl
 
   result.bmin = RowMatrixXd::Ones(fc.ns - 1, s.nThetaReduced) * DBL_MAX;
-- 
2.43.0


From 0cef976fe5f1bdff613a2bba98e5bd2f69ec6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:42 +0000
Subject: [PATCH 19/62] fix: extrapolate asymmetric m=0 lambda to the axis like
 the symmetric part

---
 .../vmec/output_quantities/output_quantities.cc       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index ce9f4c5..d9d669e 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -5251,6 +5251,17 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
         // since sin(m * theta) == 0 for m = 0 and sin(n * zeta) == 0 for n = 0
       }  // n
 
+      // extrapolate to axis if 3D (as for the symmetric part above)
+      if (s.lthreed && jF == 0) {
+        for (int n = 0; n <= s.ntor; ++n) {
+          const int idx_ns_1 = (1 * (s.ntor + 1) + n) * s.mpol + m_0;
+          const int idx_ns_2 = (2 * (s.ntor + 1) + n) * s.mpol + m_0;
+          const double t1 = t.mscale[m_0] * t.nscale[n];
+          lmnc1[n] = t1 * (2.0 * m_vmec_internal_results.lmncc(idx_ns_1) -
+                           m_vmec_internal_results.lmncc(idx_ns_2));
+        }  // n
+      }
+
       // now come the m>0, n=-ntor, ..., ntor entries
       for (int m = 1; m < s.mpol; ++m) {
         for (int n = -s.ntor; n <= s.ntor; ++n) {
-- 
2.43.0


From 262d946ba4629a6cf18718030efb9adf4746ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:04 +0000
Subject: [PATCH 20/62] fix: accept FreeBoundaryMethod and IterationStyle
 members in VmecInput

---
 src/vmecpp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 409569e..93eec01 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -172,7 +172,7 @@ def _validate_free_boundary_method(
     """Convert various representations to FreeBoundaryMethod."""
     if isinstance(value, _vmecpp.FreeBoundaryMethod):
         return FreeBoundaryMethod(value.name.lower())  # pyright: ignore[reportAttributeAccessIssue]
-    return FreeBoundaryMethod(str(value))
+    return FreeBoundaryMethod(value)
 
 
 def _validate_iteration_style(
@@ -181,7 +181,7 @@ def _validate_iteration_style(
     """Convert various representations to IterationStyle."""
     if isinstance(value, _vmecpp.IterationStyle):
         return IterationStyle(value.name.lower())  # pyright: ignore[reportAttributeAccessIssue]
-    return IterationStyle(str(value))
+    return IterationStyle(value)
 
 
 # This is a pure Python equivalent of VmecINDATAPyWrapper.
-- 
2.43.0


From 38a114c97ad0cf591bb52a99ec6706b79895e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:11 +0000
Subject: [PATCH 21/62] fix: omitted raxis_s/zaxis_c default to zero when
 loading a lasym input

---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index b53825f..500ddf0 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -947,9 +947,7 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (!maybe_raxis_s.ok()) {
       return maybe_raxis_s.status();
     }
-    if (maybe_raxis_s->has_value()) {
-      vmec_indata.raxis_s = maybe_raxis_s->value();
-    }
+    vmec_indata.raxis_s = maybe_raxis_s->value_or(Eigen::VectorXd());
 
     if (absl::Status status =
             pad_or_reject_axis(vmec_indata.raxis_s.value(), "raxis_s");
@@ -961,9 +959,7 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (!maybe_zaxis_c.ok()) {
       return maybe_zaxis_c.status();
     }
-    if (maybe_zaxis_c->has_value()) {
-      vmec_indata.zaxis_c = maybe_zaxis_c->value();
-    }
+    vmec_indata.zaxis_c = maybe_zaxis_c->value_or(Eigen::VectorXd());
 
     if (absl::Status status =
             pad_or_reject_axis(vmec_indata.zaxis_c.value(), "zaxis_c");
-- 
2.43.0


From d8d23b643d829ee040914e05646e2d3aec858320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:11 +0000
Subject: [PATCH 22/62] fix: size omitted rbc/zbs according to mpol and ntor
 when loading an input

---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 500ddf0..a5d0322 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -974,8 +974,8 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
   if (!maybe_rbc.ok()) {
     return maybe_rbc.status();
   }
+  vmec_indata.rbc.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
   if (maybe_rbc->has_value()) {
-    vmec_indata.rbc.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_rbc->value();
     for (const BoundaryCoefficient& entry : entries) {
       if (entry.m > vmec_indata.mpol - 1) {
@@ -1004,8 +1004,8 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
   if (!maybe_zbs.ok()) {
     return maybe_zbs.status();
   }
+  vmec_indata.zbs.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
   if (maybe_zbs->has_value()) {
-    vmec_indata.zbs.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_zbs->value();
     for (const BoundaryCoefficient& entry : entries) {
       if (entry.m > vmec_indata.mpol - 1) {
-- 
2.43.0


From b54dde01c76c7279da63d4cda45ba13d92ab3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:32 +0000
Subject: [PATCH 23/62] fix: never write outside rbc/zbs/rbs/zbc for mode
 numbers out of range

---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index a5d0322..274645f 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -531,6 +531,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.ntor = maybe_ntor->value();
   }
 
+  // The sizes of the arrays read below are derived from mpol and ntor.
+  if (vmec_indata.mpol < 0 || vmec_indata.ntor < 0) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variables 'mpol' and 'ntor' must not be negative, but are %d "
+        "and %d\n",
+        vmec_indata.mpol, vmec_indata.ntor));
+  }
+
   auto maybe_mpol_geometry = JsonReadInt(j, "mpol_geometry");
   if (!maybe_mpol_geometry.ok()) {
     return maybe_mpol_geometry.status();
@@ -978,14 +986,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
   if (maybe_rbc->has_value()) {
     std::vector<BoundaryCoefficient> entries = maybe_rbc->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring rbc entry with m = %d, since m is larger than (mpol - 1) "
+            "Ignoring rbc entry with m = %d, since m is not in 0..(mpol - 1) "
             "= %d",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
-      if (std::abs(entry.n) > vmec_indata.ntor) {
+      if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring rbc entry with n = %d, since |n| is larger than ntor = "
             "%d",
@@ -1008,14 +1016,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
   if (maybe_zbs->has_value()) {
     std::vector<BoundaryCoefficient> entries = maybe_zbs->value();
     for (const BoundaryCoefficient& entry : entries) {
-      if (entry.m > vmec_indata.mpol - 1) {
+      if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
-            "Ignoring zbs entry with m = %d, since m is larger than (mpol - 1) "
+            "Ignoring zbs entry with m = %d, since m is not in 0..(mpol - 1) "
             "= %d",
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
-      if (std::abs(entry.n) > vmec_indata.ntor) {
+      if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring zbs entry with n = %d, since |n| is larger than ntor = "
             "%d",
@@ -1045,14 +1053,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_rbs->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_rbs->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring rbs entry with m = %d, since m is larger than (mpol - "
+              "Ignoring rbs entry with m = %d, since m is not in 0..(mpol - "
               "1) = %d",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-        if (std::abs(entry.n) > vmec_indata.ntor) {
+        if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring rbs entry with n = %d, since |n| is larger than ntor = "
               "%d",
@@ -1075,14 +1083,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_zbc->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_zbc->value();
       for (const BoundaryCoefficient& entry : entries) {
-        if (entry.m > vmec_indata.mpol - 1) {
+        if (entry.m < 0 || entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
-              "Ignoring zbc entry with m = %d, since m is larger than (mpol - "
+              "Ignoring zbc entry with m = %d, since m is not in 0..(mpol - "
               "1) = %d",
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-        if (std::abs(entry.n) > vmec_indata.ntor) {
+        if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring zbc entry with n = %d, since |n| is larger than ntor = "
               "%d",
-- 
2.43.0


From ba5e90256c658f190f3eb6789016edd0a703d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:32 +0000
Subject: [PATCH 24/62] fix: report JSON integers outside the range of int
 instead of wrapping them

---
 src/vmecpp/cpp/util/json_io/json_io.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/util/json_io/json_io.cc b/src/vmecpp/cpp/util/json_io/json_io.cc
index 86f8178..eee9532 100644
--- a/src/vmecpp/cpp/util/json_io/json_io.cc
+++ b/src/vmecpp/cpp/util/json_io/json_io.cc
@@ -4,6 +4,8 @@
 // SPDX-License-Identifier: MIT
 #include "util/json_io/json_io.h"
 
+#include <cstdint>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -11,7 +13,18 @@
 
 namespace {
 using nlohmann::json;
+
+// true iff j holds an integer that can be represented as int
+bool IsInt(const json& j) {
+  if (j.is_number_unsigned()) {
+    return j.get<std::uint64_t>() <=
+           static_cast<std::uint64_t>(std::numeric_limits<int>::max());
+  }
+  return j.is_number_integer() &&
+         j.get<std::int64_t>() >= std::numeric_limits<int>::min() &&
+         j.get<std::int64_t>() <= std::numeric_limits<int>::max();
 }
+}  // namespace
 
 namespace json_io {
 
@@ -37,7 +50,7 @@ absl::StatusOr<std::optional<int>> JsonReadInt(const json& j,
     return std::nullopt;
   }
 
-  if (!j[name].is_number_integer()) {
+  if (!IsInt(j[name])) {
     return absl::InvalidArgumentError(
         absl::StrFormat("JSON element '%s' is not an integer", name));
   }
@@ -90,7 +103,7 @@ absl::StatusOr<std::optional<Eigen::VectorXi>> JsonReadVectorInt(
   std::vector<int> entries;
   int i = 0;
   for (const auto& entry : j[name]) {
-    if (entry.is_number_integer()) {
+    if (IsInt(entry)) {
       entries.push_back(entry);
     } else {
       return absl::InvalidArgumentError(
-- 
2.43.0


From 84e44ef3593077852056959980f19802292db1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:58 +0000
Subject: [PATCH 25/62] fix: export the magnetic axis to the INDATA namelist

---
 src/vmecpp/_util.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index 6bba0c0..5d99aaa 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -229,10 +229,15 @@ def vmecpp_json_to_indata(vmecpp_json: dict[str, Any]) -> str:
     indata += _int_to_namelist("nvacskip", vmecpp_json)
 
     indata += "\n  ! initial guess for magnetic axis\n"
-    indata += _float_array_to_namelist("raxis_cc", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("raxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cc", vmecpp_json)
+    # the axis arrays have different names in the two formats
+    axis = {
+        "raxis_cc": vmecpp_json.get("raxis_c"),
+        "zaxis_cs": vmecpp_json.get("zaxis_s"),
+        "raxis_cs": vmecpp_json.get("raxis_s"),
+        "zaxis_cc": vmecpp_json.get("zaxis_c"),
+    }
+    for varname in axis:
+        indata += _float_array_to_namelist(varname, axis)
 
     indata += "\n  ! (initial guess for) boundary shape\n"
     indata += _fourier_coefficients_to_namelist("rbc", vmecpp_json)
-- 
2.43.0


From 4b29d26d353bdd9ddad8e1d459ac66ab70014a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:58 +0000
Subject: [PATCH 26/62] fix: escape quotes in strings exported to the INDATA
 namelist

---
 src/vmecpp/_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index 5d99aaa..ff193fa 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -261,7 +261,9 @@ def _string_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
     if varname not in vmecpp_json:
         return ""
 
-    return f"  {varname} = '{vmecpp_json[varname]}'\n"
+    # a quote inside a Fortran string literal is written as two quotes
+    value = vmecpp_json[varname].replace("'", "''")
+    return f"  {varname} = '{value}'\n"
 
 
 def _int_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
-- 
2.43.0


From 3519b99e8a63101c3f73053ac029e2f955c0a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:58 +0000
Subject: [PATCH 27/62] fix: omitted raxis_s/zaxis_c of a lasym VmecInput
 default to zero

---
 src/vmecpp/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 93eec01..416a0fa 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -541,7 +541,8 @@ class VmecInput(BaseModelWithNumpy):
         for field in ntor_plus_one_fields:
             current_value = getattr(self, field)
             if current_value is None:
-                continue
+                current_value = np.zeros(expected_axis_len)
+                setattr(self, field, current_value)
             if np.size(current_value) != expected_axis_len:
                 setattr(
                     self,
-- 
2.43.0


From 463e20eee2f57ff93c61e630d80d79a5002f323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:19 +0000
Subject: [PATCH 28/62] fix: load input files with per-step mpol/ntor schedules

---
 src/vmecpp/__init__.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 416a0fa..237d591 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -104,6 +104,24 @@ def _final_resolution(value: int | np.ndarray) -> int:
     return value if isinstance(value, int) else int(value[-1])
 
 
+def _read_resolution_schedules(input_file: str | Path) -> dict[str, list[int]]:
+    """The entries of a VMEC++ JSON input file that specify ``mpol`` or ``ntor`` as a
+    sequence with one int per ``ns_array`` step."""
+    try:
+        contents = json.loads(Path(input_file).read_text())
+    except (OSError, ValueError):
+        return {}  # let VmecINDATA report the problem
+    if not isinstance(contents, dict):
+        return {}
+    return {
+        field: contents[field]
+        for field in ("mpol", "ntor")
+        if isinstance(contents.get(field), list)
+        and len(contents[field]) > 0
+        and all(type(entry) is int for entry in contents[field])
+    }
+
+
 AuxFType = typing.Annotated[
     _ArrayType,
     pydantic.BeforeValidator(lambda x: _util.right_pad(x, ndfmax, 0.0)),
@@ -669,10 +687,21 @@ class VmecInput(BaseModelWithNumpy):
             with ensure_vmecpp_input(absolute_input_path) as vmecpp_input_file:
                 # `VmecINDATA` populates missing fields with default values, while `VmecInput` doesn't.
                 # Therefore we use `VmecINDATA` here to read the user input, before validating the model
+                # `VmecINDATA` only knows the final Fourier resolution, so per-step `mpol`/`ntor`
+                # schedules are replaced by their last entry for reading and restored below.
+                schedules = _read_resolution_schedules(vmecpp_input_file)
+                if schedules:
+                    contents = json.loads(Path(vmecpp_input_file).read_text())
+                    contents.update({k: v[-1] for k, v in schedules.items()})
+                    vmecpp_input_file = Path(tmpdir) / "final_resolution.json"
+                    vmecpp_input_file.write_text(json.dumps(contents))
                 vmecpp_indata = _vmecpp.VmecINDATA.from_file(vmecpp_input_file)
         # At this point all required fields are populated with user defined or default values.
         # Passing missing or extra fields to `VmecInput.model_validate` will otherwise raise an error.
-        return VmecInput._from_cpp_vmecindata(vmecpp_indata)
+        vmec_input = VmecInput._from_cpp_vmecindata(vmecpp_indata)
+        for field, schedule in schedules.items():
+            setattr(vmec_input, field, _coerce_mpol_ntor(schedule))
+        return vmec_input
 
     @staticmethod
     def _from_cpp_vmecindata(
-- 
2.43.0


From 14ac1766ea9cdfb06a52fe107e3d018bc5dd4bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:25 +0000
Subject: [PATCH 29/62] fix: remove the temporary file when a saved wout cannot
 be moved into place

---
 src/vmecpp/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 237d591..cec571d 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1455,10 +1455,10 @@ class VmecWOut(BaseModelWithNumpy):
         os.close(tmp_fd)
         try:
             self._save_to_netcdf3(tmp_name)
+            Path(tmp_name).replace(out_path)
         except BaseException:
             Path(tmp_name).unlink(missing_ok=True)
             raise
-        Path(tmp_name).replace(out_path)
 
     def _save_to_netcdf3(self, out_path: str | Path) -> None:
         """Write the NetCDF3 wout representation of this object to out_path."""
-- 
2.43.0


From 8253ca33ec79d3c3fa8ee339655c5558df06f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:25 +0000
Subject: [PATCH 30/62] fix: do not write empty wout arrays, which cannot be
 read back

---
 src/vmecpp/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index cec571d..917847c 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1550,6 +1550,11 @@ class VmecWOut(BaseModelWithNumpy):
                     continue
                 elif field_type is np.ndarray or field_type is list:
                     value_array = np.array(value)
+                    if value_array.size == 0:
+                        # A dimension of size 0 would become the (single, growing)
+                        # unlimited dimension. Empty arrays only occur for optional
+                        # fields, which are empty again if missing from the file.
+                        continue
                     # Fallback to default dimension names like dim_00001, dim_00002, etc.
                     shape_string = tuple(
                         [f"dim_{dim:05d}" for dim in value_array.shape]
-- 
2.43.0


From 3b18eb60c89d86d79710024c2bd781d022e158e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:53 +0000
Subject: [PATCH 31/62] fix: report I/O errors while saving a wout and never
 leave its temporary file

---
 src/vmecpp/__init__.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 917847c..422aee8 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -12,6 +12,7 @@ import sys
 import tempfile
 import types
 import typing
+import uuid
 from collections.abc import Generator
 from pathlib import Path
 
@@ -1449,20 +1450,22 @@ class VmecWOut(BaseModelWithNumpy):
         # Write to a temporary file in the target directory and atomically move
         # it into place at the end, so that a failed save never leaves a
         # partial wout file behind at out_path.
-        tmp_fd, tmp_name = tempfile.mkstemp(
-            dir=out_path.parent, prefix=out_path.name + ".", suffix=".tmp"
-        )
-        os.close(tmp_fd)
+        tmp_path = out_path.with_name(f"{out_path.name}.{uuid.uuid4().hex}.tmp")
         try:
-            self._save_to_netcdf3(tmp_name)
-            Path(tmp_name).replace(out_path)
+            self._save_to_netcdf3(tmp_path)
+            tmp_path.replace(out_path)
         except BaseException:
-            Path(tmp_name).unlink(missing_ok=True)
+            tmp_path.unlink(missing_ok=True)
             raise
 
     def _save_to_netcdf3(self, out_path: str | Path) -> None:
         """Write the NetCDF3 wout representation of this object to out_path."""
-        with netCDF4.Dataset(out_path, "w", format="NETCDF3_CLASSIC") as fnc:
+        # The file is assembled in memory: the NetCDF library does not report all
+        # errors that occur while it writes to disk.
+        fnc = netCDF4.Dataset(
+            str(out_path), "w", format="NETCDF3_CLASSIC", memory=1024
+        )
+        try:
             # create dimensions (in the same order as VMEC2000)
             # Dimensions that are not in use yet, written for compatibility
             fnc.createDimension("mn_mode_pot", 100)
@@ -1641,6 +1644,10 @@ class VmecWOut(BaseModelWithNumpy):
                         "Please report this to the developers."
                     )
                     raise ValueError(msg)
+        except BaseException:
+            fnc.close()
+            raise
+        Path(out_path).write_bytes(fnc.close())
 
     @staticmethod
     def _from_cpp_wout(cpp_wout: _vmecpp.VmecppWOut) -> VmecWOut:
-- 
2.43.0


From 118c0a516d3f95259d8aaffe0ae1446ba06e18e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:42 +0000
Subject: [PATCH 32/62] fix: save spline profiles of different lengths without
 padding or cutting them

---
 src/vmecpp/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 422aee8..d6948b4 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1612,6 +1612,15 @@ class VmecWOut(BaseModelWithNumpy):
                             )
                         shape_string = tuple(inferred_shape)
 
+                    if (
+                        value_array.ndim == 1
+                        and shape_string[0] in fnc.dimensions
+                        and len(fnc.dimensions[shape_string[0]]) != len(value_array)
+                    ):
+                        # e.g. spline profiles with more than ndfmax knots: do not
+                        # pad or cut an array to the length of another one.
+                        shape_string = (f"dim_{len(value_array):05d}",)
+
                     for dim_name, dim_size in zip(
                         shape_string, value_array.shape, strict=True
                     ):
@@ -1629,8 +1638,7 @@ class VmecWOut(BaseModelWithNumpy):
                         fnc[field][:] = value_array
                     elif len(shape_string) == 1:
                         fnc.createVariable(field, dtype, shape_string)
-                        # Slice arrays that are padded in wout and unpadded in VMEC++
-                        fnc[field][: len(value_array)] = value_array
+                        fnc[field][:] = value_array
                     elif len(shape_string) == 2:
                         # 2D arrays are transposed in Fortran, also reverse the dimension order
                         fnc.createVariable(field, dtype, shape_string[::-1])
-- 
2.43.0


From 1a962b2ef02744e5200dac658f99899dc5975b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:11 +0000
Subject: [PATCH 33/62] fix: do not write past the waist/height arrays for
 axisymmetric runs with nzeta > 1

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index d9d669e..03059fb 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3921,6 +3921,10 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
     if (k != 0 && k != s.nZeta / 2) {
       continue;
     }
+    if (symmetry_plane_index == symmetry_planes_count) {
+      // axisymmetric run with more than one toroidal grid point
+      break;
+    }
 
     const int index_outboard = ((fc.ns - 1) * s.nZeta + k) * s.nThetaEff + 0;
     const double r_outboard = vmec_internal_results.r_e(index_outboard) +
-- 
2.43.0


From f2108d2cb4612e945347f9724f7851fdfd42b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:59 +0000
Subject: [PATCH 34/62] fix: initialise residuals and surface averages that a
 run ending on a bad Jacobian outputs

---
 .../common/flow_control/flow_control.cc       |  4 +++
 .../vmec/radial_profiles/radial_profiles.cc   | 26 +++++++++----------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
index 70a0130..0e1bf5b 100644
--- a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
+++ b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
@@ -56,6 +56,10 @@ FlowControl::FlowControl(bool lfreeb, double delt, int num_grids,
   // INITIALIZE PARAMETERS
   fsqr = 1.0;
   fsqz = 1.0;
+  fsql = 1.0;
+  fsqr1 = 1.0;
+  fsqz1 = 1.0;
+  fsql1 = 1.0;
   ftolv = fsqr;
   ijacob = 0;
   restart_reason = RestartReason::NO_RESTART;
diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 1abe4da..80d27e3 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -236,31 +236,31 @@ RadialProfiles::RadialProfiles(const RadialPartitioning* r,
 
   // half-grid
   phipH.resize(r_.nsMaxH - r_.nsMinH);
-  chipH.resize(r_.nsMaxH - r_.nsMinH);
-  iotaH.resize(r_.nsMaxH - r_.nsMinH);
+  chipH.setZero(r_.nsMaxH - r_.nsMinH);
+  iotaH.setZero(r_.nsMaxH - r_.nsMinH);
   currH.resize(r_.nsMaxH - r_.nsMinH);
   massH.resize(r_.nsMaxH - r_.nsMinH);
   sqrtSH.resize(r_.nsMaxH - r_.nsMinH);
 
   // full-grid
   phipF.resize(r_.nsMaxF1 - r_.nsMinF1);
-  chipF.resize(r_.nsMaxF1 - r_.nsMinF1);
-  iotaF.resize(r_.nsMaxF1 - r_.nsMinF1);
+  chipF.setZero(r_.nsMaxF1 - r_.nsMinF1);
+  iotaF.setZero(r_.nsMaxF1 - r_.nsMinF1);
   sqrtSF.resize(r_.nsMaxF1 - r_.nsMinF1);
   radialBlending.resize(r_.nsMaxF1 - r_.nsMinF1);
 
   // ---------------------------------
 
-  dVdsH.resize(r_.nsMaxH - r_.nsMinH);
-  presH.resize(r_.nsMaxH - r_.nsMinH);
-  bucoH.resize(r_.nsMaxH - r_.nsMinH);
-  bvcoH.resize(r_.nsMaxH - r_.nsMinH);
+  dVdsH.setZero(r_.nsMaxH - r_.nsMinH);
+  presH.setZero(r_.nsMaxH - r_.nsMinH);
+  bucoH.setZero(r_.nsMaxH - r_.nsMinH);
+  bvcoH.setZero(r_.nsMaxH - r_.nsMinH);
 
-  jcuruF.resize(r_.nsMaxFi - r_.nsMinFi);
-  jcurvF.resize(r_.nsMaxFi - r_.nsMinFi);
-  presgradF.resize(r_.nsMaxFi - r_.nsMinFi);
-  dVdsF.resize(r_.nsMaxFi - r_.nsMinFi);
-  equiF.resize(r_.nsMaxFi - r_.nsMinFi);
+  jcuruF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  jcurvF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  presgradF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  dVdsF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  equiF.setZero(r_.nsMaxFi - r_.nsMinFi);
 
   spectral_width.resize(r_.nsMaxF1 - r_.nsMinF1);
   spectral_width.setZero();
-- 
2.43.0


From e152692540e040acebd573ed815d524fec0d6d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:07 +0000
Subject: [PATCH 35/62] fix: convert a field table with reassigned parameters
 or components faithfully

---
 src/vmecpp/_free_boundary.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/_free_boundary.py b/src/vmecpp/_free_boundary.py
index 690554c..cee411f 100644
--- a/src/vmecpp/_free_boundary.py
+++ b/src/vmecpp/_free_boundary.py
@@ -123,12 +123,19 @@ class MagneticFieldResponseTable(BaseModelWithNumpy):
         avoiding a copy if possible."""
         # If vmecpp.MagneticFieldResponseTable was created from a C++ object, the
         # arrays be views to the memory of the C++ object. We don't need to create
-        # a new object and just return the underling one.
+        # a new object and just return the underling one, provided that it really
+        # holds the same data: the fields of this model can be reassigned.
         underlying = self.b_r.base
         if (
             isinstance(underlying, _vmecpp.MagneticFieldResponseTable)
-            and underlying == self.b_p.base
-            and underlying == self.b_z.base
+            and all(
+                getattr(self, name).base is underlying
+                and getattr(self, name).ctypes.data
+                == getattr(underlying, name).ctypes.data
+                for name in ("b_r", "b_p", "b_z")
+            )
+            and self.parameters
+            == MakegridParameters._from_cpp_makegrid_parameters(underlying.parameters)
         ):
             return underlying
         # Otherwise, create a new C++ object
-- 
2.43.0


From c6e4f3df230a29e49de3a9f00eff282c519e70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:07 +0000
Subject: [PATCH 36/62] fix: refuse coil file entries that are not completely
 numeric

---
 .../magnetic_configuration_lib.cc             | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index b4e629c..8d9902c 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -6,7 +6,9 @@
 
 #include <Eigen/Dense>
 #include <algorithm>
+#include <array>
 #include <cctype>
+#include <cmath>
 #include <cstring>
 #include <fstream>
 #include <iostream>
@@ -20,6 +22,7 @@
 #include "absl/log/log.h"
 #include "absl/status/status.h"
 #include "absl/strings/ascii.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_split.h"
 #include "util/file_io/file_io.h"
@@ -70,16 +73,30 @@ absl::Status ParseCurrentCarriers(
 
     if (num_line_parts == 4 || num_line_parts == 6) {
       // handle first four columns: x, y, z, w
-      x.push_back(std::stod(line_parts[0]));  // x or r
-      y.push_back(std::stod(line_parts[1]));  // y or 0.0
-      z.push_back(std::stod(line_parts[2]));  // z
-      w.push_back(std::stod(line_parts[3]));  // num_windings or 0.0 or current
-                                              // or any product of those
+      std::array<double, 4> values;
+      for (int i = 0; i < 4; ++i) {
+        if (!absl::SimpleAtod(line_parts[i], &values[i]) ||
+            !std::isfinite(values[i])) {
+          return absl::InvalidArgumentError(
+              absl::StrCat("cannot parse line: '", stripped_line, "': '",
+                           line_parts[i], "' is not a finite number"));
+        }
+      }
+      x.push_back(values[0]);  // x or r
+      y.push_back(values[1]);  // y or 0.0
+      z.push_back(values[2]);  // z
+      w.push_back(values[3]);  // num_windings or 0.0 or current
+                               // or any product of those
 
       if (num_line_parts == 6) {
         // handle six columns: x, y, z, 0.0, serial_circuit_id,
         // current_carrier_name
-        int serial_circuit_id = std::stoi(line_parts[4]);
+        int serial_circuit_id = 0;
+        if (!absl::SimpleAtoi(line_parts[4], &serial_circuit_id)) {
+          return absl::InvalidArgumentError(
+              absl::StrCat("cannot parse line: '", stripped_line, "': '",
+                           line_parts[4], "' is not a circuit number"));
+        }
         std::string current_carrier_name = line_parts[5];
 
         // find or create target serial circuit based on circuit ID
@@ -182,9 +199,14 @@ absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
                          "but no second part was found on line '"
                       << stripped_line << "'";
         return absl::NotFoundError(error_message.str());
-      } else {
-        magnetic_configuration.set_num_field_periods(std::stoi(line_parts[1]));
       }
+      int num_field_periods = 0;
+      if (!absl::SimpleAtoi(line_parts[1], &num_field_periods)) {
+        return absl::InvalidArgumentError(
+            absl::StrCat("cannot parse line: '", stripped_line, "': '",
+                         line_parts[1], "' is not a number of field periods"));
+      }
+      magnetic_configuration.set_num_field_periods(num_field_periods);
     } else if (absl::StartsWith(stripped_line, "begin filament")) {
       // expect current carrier geometry starting on next line until line "end"
       absl::Status status =
-- 
2.43.0


From 2cc21a83609cd8c09646beab8bb3515c4f849e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:38 +0000
Subject: [PATCH 37/62] fix: NetCDF readers refuse variables of another type

---
 src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc | 58 ++++++++++++++++++----
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
index eef6215..830db24 100644
--- a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
+++ b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
@@ -57,6 +57,31 @@ absl::StatusOr<std::vector<size_t> > GetVariableDimensions(
   return dimensions;
 }
 
+// The untyped and converting read functions of the NetCDF library do not
+// complain when a variable holds another type than the one that is expected.
+absl::Status CheckVariableIsInteger(int ncid, int variable_id,
+                                    const std::string& variable_name) {
+  nc_type type = NC_NAT;
+  if (nc_inq_vartype(ncid, variable_id, &type) != NC_NOERR) {
+    return absl::InternalError(absl::StrFormat(
+        "could not determine type of variable '%s'", variable_name));
+  }
+  switch (type) {
+    case NC_BYTE:
+    case NC_UBYTE:
+    case NC_SHORT:
+    case NC_USHORT:
+    case NC_INT:
+    case NC_UINT:
+    case NC_INT64:
+    case NC_UINT64:
+      return absl::OkStatus();
+    default:
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Not an integer variable: %s", variable_name));
+  }
+}
+
 }  // namespace
 
 absl::StatusOr<bool> NetcdfReadBool(int ncid,
@@ -81,6 +106,12 @@ absl::StatusOr<bool> NetcdfReadBool(int ncid,
         absl::StrFormat("Not a rank-0 array: %s", logical_variable_name));
   }
 
+  absl::Status is_integer =
+      CheckVariableIsInteger(ncid, *variable_id, logical_variable_name);
+  if (!is_integer.ok()) {
+    return is_integer;
+  }
+
   int variable_data = 0;
   if (nc_get_var_int(ncid, *variable_id, &variable_data) != NC_NOERR) {
     return absl::InternalError(
@@ -121,8 +152,8 @@ absl::StatusOr<char> NetcdfReadChar(int ncid,
   // actually read data
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<char> variable_data(1, 0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_text(ncid, *variable_id, read_start_indices.data(),
+                       dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -145,6 +176,12 @@ absl::StatusOr<int> NetcdfReadInt(int ncid, const std::string& variable_name) {
         absl::StrFormat("Not a rank-0 array: %s", variable_name));
   }
 
+  absl::Status is_integer =
+      CheckVariableIsInteger(ncid, *variable_id, variable_name);
+  if (!is_integer.ok()) {
+    return is_integer;
+  }
+
   int variable_data = 0;
   if (nc_get_var_int(ncid, *variable_id, &variable_data) != NC_NOERR) {
     return absl::InternalError(
@@ -209,8 +246,8 @@ absl::StatusOr<std::string> NetcdfReadString(int ncid,
   // one extra element that stays at 0 in order to properly zero-terminate the
   // string
   std::vector<char> variable_data(total_element_count + 1, 0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_text(ncid, *variable_id, read_start_indices.data(),
+                       dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -247,8 +284,9 @@ absl::StatusOr<std::vector<double> > NetcdfReadArray1D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions->data(),
+                         variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -283,8 +321,8 @@ absl::StatusOr<std::vector<std::vector<double> > > NetcdfReadArray2D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -327,8 +365,8 @@ NetcdfReadArray3D(int ncid, const std::string& variable_name) {
   size_t total_element_count = dimensions[0] * dimensions[1] * dimensions[2];
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
-- 
2.43.0


From 2a5c72fe7bc919f40ee06ffe62932b8225a837e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:39 +0000
Subject: [PATCH 38/62] fix: HDF5 readers check rank and type, lists of texts
 are stored and read correctly

---
 src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc | 79 ++++++++++++++++++++++++--
 src/vmecpp/cpp/util/hdf5_io/hdf5_io.h  | 42 ++++++++++----
 2 files changed, 106 insertions(+), 15 deletions(-)

diff --git a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
index 1805011..ef77ac3 100644
--- a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
+++ b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
@@ -8,6 +8,46 @@
 #include <string>
 #include <vector>
 
+void hdf5_io::CheckH5Dataset(const H5::DataSet& dataset,
+                             const std::string& name, int rank,
+                             H5Content content) {
+  const H5::DataSpace space = dataset.getSpace();
+  if (space.getSimpleExtentType() == H5S_NULL) {
+    throw H5::DataSetIException(name, "dataset holds no values");
+  }
+  if (rank >= 0 && space.getSimpleExtentNdims() != rank) {
+    throw H5::DataSetIException(name,
+                                "dataset does not have the expected rank");
+  }
+
+  const H5T_class_t type_class = dataset.getTypeClass();
+  bool readable = false;
+  switch (content) {
+    case H5Content::kReal:
+      readable = (type_class == H5T_FLOAT || type_class == H5T_INTEGER);
+      break;
+    case H5Content::kInteger:
+      if (type_class == H5T_INTEGER) {
+        const H5::IntType type = dataset.getIntType();
+        readable =
+            type.getSize() < sizeof(int) ||
+            (type.getSize() == sizeof(int) && type.getSign() != H5T_SGN_NONE);
+      }
+      break;
+    case H5Content::kBool:
+      readable =
+          (type_class == H5T_INTEGER && dataset.getIntType().getSize() == 1);
+      break;
+    case H5Content::kText:
+      readable = (type_class == H5T_STRING);
+      break;
+  }
+  if (!readable) {
+    throw H5::DataSetIException(name,
+                                "dataset does not have the expected type");
+  }
+}
+
 void hdf5_io::WriteH5Dataset(const hdf5_io::RowMatrixXd& m,
                              const std::string& name, H5::H5File& file) {
   const std::array<hsize_t, 2> dims = {static_cast<hsize_t>(m.rows()),
@@ -32,7 +72,12 @@ void hdf5_io::WriteH5Dataset(const std::vector<std::string>& vs,
   H5::DataSpace dataspace(/*rank=*/1, /*dims=*/&size);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
   H5::DataSet dataset = file.createDataSet(name, str_type, dataspace);
-  dataset.write(vs.data(), str_type);
+  std::vector<const char*> c_strings;
+  c_strings.reserve(vs.size());
+  for (const std::string& s : vs) {
+    c_strings.push_back(s.c_str());
+  }
+  dataset.write(c_strings.data(), str_type);
 }
 
 void hdf5_io::WriteH5Dataset(const std::string& str, const std::string& name,
@@ -46,6 +91,7 @@ void hdf5_io::WriteH5Dataset(const std::string& str, const std::string& name,
 void hdf5_io::ReadH5Dataset(hdf5_io::RowMatrixXd& m, const std::string& dataset,
                             H5::H5File& file) {
   H5::DataSet ds = file.openDataSet(dataset);
+  CheckH5Dataset(ds, dataset, /*rank=*/2, H5Content::kReal);
 
   H5::DataSpace space = ds.getSpace();
   std::array<hsize_t, 2> dims;
@@ -59,21 +105,46 @@ void hdf5_io::ReadH5Dataset(hdf5_io::RowMatrixXd& m, const std::string& dataset,
 void hdf5_io::ReadH5Dataset(std::vector<std::string>& vs,
                             const std::string& dataset, H5::H5File& file) {
   H5::DataSet ds = file.openDataSet(dataset);
+  CheckH5Dataset(ds, dataset, /*rank=*/1, H5Content::kText);
 
   H5::DataSpace space = ds.getSpace();
   hsize_t size;
   space.getSimpleExtentDims(&size);
 
-  vs.resize(size);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
-  ds.read(vs.data(), str_type);
+  std::vector<char*> c_strings(size, nullptr);
+  ds.read(c_strings.data(), str_type);
+
+  vs.clear();
+  bool all_present = true;
+  for (const char* c_string : c_strings) {
+    all_present = all_present && (c_string != nullptr);
+    vs.emplace_back(c_string == nullptr ? "" : c_string);
+  }
+  // release the memory which the HDF5 library allocated for each entry
+  if (size > 0) {
+    H5Dvlen_reclaim(str_type.getId(), space.getId(), H5P_DEFAULT,
+                    c_strings.data());
+  }
+  if (!all_present) {
+    throw H5::DataSetIException(dataset, "dataset holds no text");
+  }
 }
 
 void hdf5_io::ReadH5Dataset(std::string& str, const std::string& dataset,
                             H5::H5File& file) {
   H5::DataSet ds = file.openDataSet(dataset);
+  CheckH5Dataset(ds, dataset, /*rank=*/0, H5Content::kText);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
-  ds.read(str, str_type);
+  char* c_string = nullptr;
+  ds.read(static_cast<void*>(&c_string), str_type);
+  if (c_string == nullptr) {
+    throw H5::DataSetIException(dataset, "dataset holds no text");
+  }
+  str = c_string;
+  // release the memory which the HDF5 library allocated for the text
+  H5::DataSpace space = ds.getSpace();
+  H5Dvlen_reclaim(str_type.getId(), space.getId(), H5P_DEFAULT, &c_string);
 }
 
 template void hdf5_io::ReadH5Dataset(double& v, const std::string& dataset,
diff --git a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h
index aae43ba..91559b3 100644
--- a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h
+++ b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h
@@ -22,6 +22,14 @@ namespace hdf5_io {
 using RowMatrixXd =
     Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
 
+// What a reader expects to find in a dataset.
+enum class H5Content { kReal, kInteger, kBool, kText };
+
+// Throw if the dataset does not have the given rank (any rank if negative) or
+// does not hold values that can be read as the given content without loss.
+void CheckH5Dataset(const H5::DataSet& dataset, const std::string& name,
+                    int rank, H5Content content);
+
 void WriteH5Dataset(const RowMatrixXd& m, const std::string& name,
                     H5::H5File& file);
 
@@ -88,15 +96,18 @@ template <typename Vector>
 void ReadH5Dataset(Vector& v, const std::string& dataset, H5::H5File& file) {
   H5::DataSet ds = file.openDataSet(dataset);
 
-  H5::DataSpace space = ds.getSpace();
-  hsize_t size;
-  space.getSimpleExtentDims(&size);
-
   H5::PredType type = H5::PredType::NATIVE_DOUBLE;
+  H5Content content = H5Content::kReal;
   if constexpr (std::is_same_v<Vector, Eigen::VectorXi> ||
                 std::is_same_v<Vector, std::vector<int>>) {
     type = H5::PredType::NATIVE_INT;
+    content = H5Content::kInteger;
   }
+  CheckH5Dataset(ds, dataset, /*rank=*/1, content);
+
+  H5::DataSpace space = ds.getSpace();
+  hsize_t size;
+  space.getSimpleExtentDims(&size);
 
   v.resize(static_cast<Eigen::Index>(size));
   ds.read(v.data(), type);
@@ -114,14 +125,18 @@ template <typename Scalar>
 void ReadH5Dataset(Scalar& v, const std::string& dataset, H5::H5File& file) {
   H5::DataSet ds = file.openDataSet(dataset);
 
-  H5::PredType type = H5::PredType::NATIVE_DOUBLE;
-  if constexpr (std::is_same_v<Scalar, int>) {
-    type = H5::PredType::NATIVE_INT;
-  } else if (std::is_same_v<Scalar, bool>) {
-    type = H5::PredType::NATIVE_HBOOL;
+  if constexpr (std::is_same_v<Scalar, bool>) {
+    CheckH5Dataset(ds, dataset, /*rank=*/0, H5Content::kBool);
+    unsigned char value = 0;
+    ds.read(&value, H5::PredType::NATIVE_UCHAR);
+    v = (value != 0);
+  } else if constexpr (std::is_same_v<Scalar, int>) {
+    CheckH5Dataset(ds, dataset, /*rank=*/0, H5Content::kInteger);
+    ds.read(&v, H5::PredType::NATIVE_INT);
+  } else {
+    CheckH5Dataset(ds, dataset, /*rank=*/0, H5Content::kReal);
+    ds.read(&v, H5::PredType::NATIVE_DOUBLE);
   }
-
-  ds.read(&v, type);
 }
 
 extern template void ReadH5Dataset(double& v, const std::string& dataset,
@@ -148,6 +163,11 @@ template <typename Vector>
 void ReadH5Dataset(Vector& m_vector, std::vector<hsize_t>& m_dims,
                    const std::string& name, H5::H5File& file) {
   H5::DataSet dataset = file.openDataSet(name);
+  H5Content content = H5Content::kReal;
+  if constexpr (std::is_integral_v<typename Vector::value_type>) {
+    content = H5Content::kInteger;
+  }
+  CheckH5Dataset(dataset, name, /*rank=*/-1, content);
   m_dims = GetExtent(dataset);
 
   // The underlying array size is the product of all dimensions.
-- 
2.43.0


From a2fa1c0514c24c2f3dd556a483a236922b5c5ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:39 +0000
Subject: [PATCH 39/62] fix: report reading a directory and incomplete writes
 as errors

---
 src/vmecpp/cpp/util/file_io/file_io.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmecpp/cpp/util/file_io/file_io.cc b/src/vmecpp/cpp/util/file_io/file_io.cc
index 6651fcc..1e93d0c 100644
--- a/src/vmecpp/cpp/util/file_io/file_io.cc
+++ b/src/vmecpp/cpp/util/file_io/file_io.cc
@@ -19,6 +19,10 @@ absl::StatusOr<std::string> file_io::ReadFile(const fs::path& filename) {
     return absl::NotFoundError("File " + filename.string() + " not found.");
   }
 
+  if (fs::is_directory(filename)) {
+    return absl::InvalidArgumentError(filename.string() + " is a directory.");
+  }
+
   std::ifstream ifs(filename.c_str());
   if (!ifs.is_open()) {
     return absl::PermissionDeniedError("File " + filename.string() +
@@ -41,6 +45,10 @@ absl::Status file_io::WriteFile(const std::filesystem::path& filename,
 
   file_stream.flush();
   file_stream.close();
+  if (!file_stream) {
+    return absl::DataLossError("File " + filename.string() +
+                               " could not be written completely.");
+  }
 
   return absl::OkStatus();
 }
-- 
2.43.0


From 003b79a72d5105f1b94b6ef4877435b59d86c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:56 +0000
Subject: [PATCH 40/62] fix: restore every member of an archived output, also
 when the numbers of surfaces and modes agree

---
 .../output_quantities/output_quantities.cc    | 52 +++++++++++++++----
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 03059fb..490ba23 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -52,6 +52,12 @@ VectorXd NonEmptyVectorOr(const Eigen::VectorXd& vec, const double val) {
                   from_file);                                         \
   }
 
+// Read a field that archives written by older versions do not contain.
+#define READMEMBER_IF_PRESENT(x)                                   \
+  if (from_file.nameExists(absl::StrFormat("%s/%s", H5key, #x))) { \
+    READMEMBER(x);                                                 \
+  }
+
 // Write object to the specified HDF5 file, under key "vmecinternalresults".
 absl::Status vmecpp::VmecInternalResults::WriteTo(H5::H5File& file) const {
   file.createGroup(H5key);
@@ -805,7 +811,7 @@ absl::Status vmecpp::WOutFileContents::WriteTo(H5::H5File& file) const {
   file.createGroup(this->H5key);
 
   WRITEMEMBER(version_);
-  // TODO(jurasic) input_extension
+  WRITEMEMBER(input_extension);
   WRITEMEMBER(signgs);
   WRITEMEMBER(gamma);
   WRITEMEMBER(pcurr_type);
@@ -857,6 +863,15 @@ absl::Status vmecpp::WOutFileContents::WriteTo(H5::H5File& file) const {
   WRITEMEMBER(fsqr);
   WRITEMEMBER(fsqz);
   WRITEMEMBER(fsql);
+  WRITEMEMBER(lrfp);
+  WRITEMEMBER(itfsq);
+  WRITEMEMBER(fsqt);
+  WRITEMEMBER(force_residual_r);
+  WRITEMEMBER(force_residual_z);
+  WRITEMEMBER(force_residual_lambda);
+  WRITEMEMBER(delbsq);
+  WRITEMEMBER(restart_reason_timetrace);
+  WRITEMEMBER(wdot);
   WRITEMEMBER(iotaf);
   WRITEMEMBER(q_factor);
   WRITEMEMBER(presf);
@@ -877,9 +892,7 @@ absl::Status vmecpp::WOutFileContents::WriteTo(H5::H5File& file) const {
   WRITEMEMBER(phips);
   WRITEMEMBER(over_r);
   WRITEMEMBER(jdotb);
-  // TODO(jurasic) We will deprecate HDF5 soon, regenerate large_cpp_tests
-  // reference files with all quantities once that is done
-  //  WRITEMEMBER(bdotb);
+  WRITEMEMBER(bdotb);
   WRITEMEMBER(bdotgradv);
   WRITEMEMBER(DMerc);
   WRITEMEMBER(DShear);
@@ -941,7 +954,6 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
                   from_file);
     m_obj.version_ = std::stod(version_str);
   }
-  // TODO(jurasic) input_extension
   READMEMBER_COMPAT(signgs, "sign_of_jacobian");
   READMEMBER(gamma);
   READMEMBER(pcurr_type);
@@ -967,7 +979,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   READMEMBER(mgrid_file);
   // Compatibility with HDF5 files that do not have the nextcur and extcur
   // fields yet (before v0.3.3)
-  if (m_obj.lfreeb) {
+  if (m_obj.lfreeb ||
+      from_file.nameExists(absl::StrFormat("%s/%s", H5key, "nextcur"))) {
     READMEMBER(nextcur);
     READMEMBER(extcur);
   } else {
@@ -1000,6 +1013,17 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   READMEMBER(fsqr);
   READMEMBER(fsqz);
   READMEMBER(fsql);
+  m_obj.itfsq = 0;
+  READMEMBER_IF_PRESENT(input_extension);
+  READMEMBER_IF_PRESENT(lrfp);
+  READMEMBER_IF_PRESENT(itfsq);
+  READMEMBER_IF_PRESENT(fsqt);
+  READMEMBER_IF_PRESENT(force_residual_r);
+  READMEMBER_IF_PRESENT(force_residual_z);
+  READMEMBER_IF_PRESENT(force_residual_lambda);
+  READMEMBER_IF_PRESENT(delbsq);
+  READMEMBER_IF_PRESENT(restart_reason_timetrace);
+  READMEMBER_IF_PRESENT(wdot);
   READMEMBER_COMPAT(iotaf, "iota_full");
   READMEMBER_COMPAT(q_factor, "safety_factor");
   READMEMBER_COMPAT(presf, "pressure_full");
@@ -1045,9 +1069,7 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
     ReadHalfGridCompat(m_obj.over_r, "overr");
   }
   READMEMBER(jdotb);
-  // TODO(jurasic) We will deprecate HDF5 soon, regenerate large_cpp_tests
-  // reference files with all quantities once that is done
-  //  READMEMBER(bdotb);
+  READMEMBER_IF_PRESENT(bdotb);
   READMEMBER(bdotgradv);
   READMEMBER(DMerc);
   READMEMBER_COMPAT(DShear, "Dshear");
@@ -1068,6 +1090,10 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
   // new format uses (mnmax, ns). Detect by checking if dimensions match.
   // Also handle half-grid arrays that changed from (ns-1, mnmax) to (mnmax,
   // ns).
+  // When both counts are equal, the shape cannot tell; only old files lack the
+  // half-grid arrays under their current names.
+  const bool square_is_old_layout =
+      !from_file.nameExists(absl::StrFormat("%s/%s", H5key, "iotas"));
   auto ReadAndTranspose2D = [&](RowMatrixXd& dest, const std::string& name) {
     RowMatrixXd tmp;
     ReadH5Dataset(tmp, absl::StrFormat("%s/%s", H5key, name), from_file);
@@ -1076,7 +1102,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
     // so we check if the stored shape matches (mnmax, ns) or (ns, mnmax).
     // We know mnmax and ns from already-read fields.
     if (tmp.rows() == m_obj.ns &&
-        (tmp.cols() == m_obj.mnmax || tmp.cols() == m_obj.mnmax_nyq)) {
+        (tmp.cols() == m_obj.mnmax || tmp.cols() == m_obj.mnmax_nyq) &&
+        (tmp.rows() != tmp.cols() || square_is_old_layout)) {
       dest = tmp.transpose();
     } else {
       dest = tmp;
@@ -1090,7 +1117,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
         if (tmp.rows() == m_obj.ns - 1 && tmp.cols() == mnsize) {
           dest = RowMatrixXd::Zero(mnsize, m_obj.ns);
           dest.rightCols(m_obj.ns - 1) = tmp.transpose();
-        } else if (tmp.rows() == m_obj.ns && tmp.cols() == mnsize) {
+        } else if (tmp.rows() == m_obj.ns && tmp.cols() == mnsize &&
+                   (tmp.rows() != tmp.cols() || square_is_old_layout)) {
           // Old full-grid format (ns, mnsize) e.g. bsubsmns -> transpose
           dest = tmp.transpose();
         } else {
@@ -1142,6 +1170,8 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
 
 #undef WRITEMEMBER
 #undef READMEMBER
+#undef READMEMBER_COMPAT
+#undef READMEMBER_IF_PRESENT
 
 absl::Status vmecpp::OutputQuantities::Save(
     const std::filesystem::path& path) const {
-- 
2.43.0


From fe2647293fa456e1228cf747cc4c1adadc9a546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:56 +0000
Subject: [PATCH 41/62] fix: report errors while saving an output archive

---
 .../output_quantities/output_quantities.cc    | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 490ba23..712a087 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -6,6 +6,7 @@
 
 #include <Eigen/Dense>  // VectorXd
 #include <algorithm>
+#include <fstream>
 #include <memory>
 #include <string>
 #include <vector>
@@ -1175,7 +1176,12 @@ absl::Status vmecpp::WOutFileContents::LoadInto(WOutFileContents& m_obj,
 
 absl::Status vmecpp::OutputQuantities::Save(
     const std::filesystem::path& path) const {
-  H5::H5File file(path, H5F_ACC_TRUNC);
+  // Assemble the archive in memory: errors while the HDF5 library writes its
+  // caches to disk are not reported reliably.
+  H5::FileAccPropList in_memory;
+  in_memory.setCore(/*increment=*/1 << 20, /*backing_store=*/false);
+  H5::H5File file(path, H5F_ACC_TRUNC, H5::FileCreatPropList::DEFAULT,
+                  in_memory);
 
   absl::Status status;
 
@@ -1274,6 +1280,22 @@ absl::Status vmecpp::OutputQuantities::Save(
     return status;
   }
 
+  file.flush(H5F_SCOPE_GLOBAL);
+  const ssize_t image_size = H5Fget_file_image(file.getId(), nullptr, 0);
+  std::vector<char> image(image_size > 0 ? image_size : 0);
+  if (image.empty() || H5Fget_file_image(file.getId(), image.data(),
+                                         image.size()) != image_size) {
+    return absl::InternalError("could not assemble the HDF5 archive");
+  }
+
+  std::ofstream archive(path, std::ios::binary);
+  archive.write(image.data(), image_size);
+  archive.close();
+  if (!archive) {
+    return absl::UnknownError(
+        absl::StrFormat("could not write file '%s'", path.string()));
+  }
+
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 7cd9f05b3352d7fa136cb7caa5c0b753daa247c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:57 +0000
Subject: [PATCH 42/62] fix: read empty integer and boolean arrays back with
 their declared type

An empty array was always read back from JSON as a float array and then
rejected by fields declared as jt.Int or jt.Bool.
---
 src/vmecpp/_pydantic_numpy.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/vmecpp/_pydantic_numpy.py b/src/vmecpp/_pydantic_numpy.py
index 5be497b..43f20c6 100644
--- a/src/vmecpp/_pydantic_numpy.py
+++ b/src/vmecpp/_pydantic_numpy.py
@@ -234,12 +234,25 @@ def _deserialize_value(
     if issubclass(declared_type, NpOrAbstractArray) and isinstance(value, list):
         fixed_list = _reconstruct_floats_for_numpy(value)
         np_data = np.array(fixed_list)
+        if np_data.size == 0:
+            # The elements of an empty list do not tell its data type.
+            np_data = np_data.astype(_dtype_of_empty_array(declared_type))
         # Only accept allowed dtypes, to avoid misinterpreting non-numpy lists.
         if np_data.dtype in _NUMPY_ALLOWED_NONBINARY_DTYPES:
             return np_data
     return value
 
 
+def _dtype_of_empty_array(declared_type: type) -> type:
+    """The data type of an empty array in a field of the given declared type."""
+    declared_dtypes = getattr(declared_type, "dtypes", ())
+    if isinstance(declared_dtypes, (list, tuple)):
+        for dtype in _NUMPY_ALLOWED_NONBINARY_DTYPES:
+            if np.dtype(dtype).name in declared_dtypes:
+                return dtype
+    return np.float64
+
+
 def _traverse_field_contents(
     field_type: type,
     value: Any,
-- 
2.43.0


From ec682d629e6ec57bbc86b947a8c2814f7c07ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:15 +0000
Subject: [PATCH 43/62] fix: reject wout arrays whose elements are not integers
 or numbers

The mode numbers and restart reasons were silently truncated to integers
(NaN became INT64_MIN), and extcur accepted any text or object as an
empty array.
---
 src/vmecpp/__init__.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index d6948b4..c8f1c87 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -73,10 +73,28 @@ def _wrap_int_as_float(
     return handler(value)
 
 
+def _to_int_array(value: typing.Any) -> np.ndarray:
+    """Converts to an integer array, rejecting values that are not integers."""
+    array = np.array(value)
+    with np.errstate(invalid="ignore"):
+        int_array = array.astype(np.int64)
+    if not np.array_equal(array, int_array):
+        msg = "All elements must be integers"
+        raise ValueError(msg)
+    return int_array
+
+
+def _scalar_to_empty_array(value: typing.Any) -> typing.Any:
+    """Converts a number to an empty array and leaves everything else unchanged."""
+    array = np.asarray(value)
+    is_number = array.shape == () and np.issubdtype(array.dtype, np.number)
+    return np.array([]) if is_number else value
+
+
 SerializeIntAsFloat: typing.TypeAlias = typing.Annotated[
     _ArrayType,
     pydantic.WrapSerializer(_wrap_int_as_float),  # pyright: ignore[reportArgumentType]
-    pydantic.BeforeValidator(lambda x: np.array(x).astype(np.int64)),
+    pydantic.BeforeValidator(_to_int_array),
 ]
 
 
@@ -1057,7 +1075,7 @@ class VmecWOut(BaseModelWithNumpy):
     restart_reason_timetrace: typing.Annotated[
         jt.Int[np.ndarray, "time"],
         pydantic.Field(alias="restart_reasons"),
-        pydantic.BeforeValidator(lambda x: np.array(x).astype(np.int64)),
+        pydantic.BeforeValidator(_to_int_array),
     ] = pydantic.Field(default_factory=lambda: np.array([], dtype=np.int64))
     """Internal restart reasons at each step along the run.  (debugging quantity).
 
@@ -1280,7 +1298,7 @@ class VmecWOut(BaseModelWithNumpy):
 
     extcur: typing.Annotated[
         jt.Float[np.ndarray, "ext_current"],
-        pydantic.BeforeValidator(lambda x: x if np.shape(x) != () else np.array([])),
+        pydantic.BeforeValidator(_scalar_to_empty_array),
         pydantic.WrapSerializer(
             lambda x, handler, _: (
                 netCDF4.default_fillvals["f8"]
-- 
2.43.0


From a8b07fd185fc9ee3e573637d30e9071c64922af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:43 +0000
Subject: [PATCH 44/62] fix: use all threads by default also after a run with
 fewer threads

max_threads=None means all available threads, but it used the number of
threads of the previous run in the same process.
---
 .../cpp/vmecpp/common/flow_control/flow_control.cc       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
index 0e1bf5b..5f90795 100644
--- a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
+++ b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
@@ -27,9 +27,16 @@ RestartReason RestartReasonFromInt(int restart_reason) {
 }
 
 int get_max_threads(std::optional<int> max_threads) {
+#ifdef _OPENMP
+  // The default of the OpenMP runtime has to be determined before the first
+  // call to omp_set_num_threads(), which is what omp_get_max_threads() returns
+  // later.
+  static const int default_max_threads = omp_get_max_threads();
+#endif  // _OPENMP
+
   if (max_threads == std::nullopt) {
 #ifdef _OPENMP
-    return omp_get_max_threads();
+    return default_max_threads;
 #endif  // _OPENMP
     // Default to 1 thread if OpenMP is not available
     return 1;
-- 
2.43.0


From f1ab464cf6607b7a22cc795b53ce9b1fdf9047a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:53 +0000
Subject: [PATCH 45/62] fix: do not modify the input passed to run

Validating the input resized boundary coefficients that do not match mpol and
ntor in the object of the caller, and the input stored in the output was that
same object.
---
 src/vmecpp/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index c8f1c87..dbd3325 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -4,6 +4,7 @@
 from __future__ import annotations
 
 import contextlib
+import copy
 import enum
 import json
 import logging
@@ -2453,7 +2454,9 @@ def run(
         >>> round(output.wout.b0, 10) # Exact value may differ by C library
         0.2033313711
     """
-    input = VmecInput.model_validate(input)
+    # Validation may resize the boundary coefficients and the output refers to the
+    # input: use a copy to leave the object of the caller unchanged.
+    input = VmecInput.model_validate(copy.deepcopy(input))
 
     if not isinstance(input.mpol, int) or not isinstance(input.ntor, int):
         return _run_fourier_continuation(
-- 
2.43.0


From 8a73c2239bf0dfce8f01719fee8aedc68db612c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:15 +0000
Subject: [PATCH 46/62] fix: allow SIMSOPT hot restarts of inputs with a
 Fourier resolution schedule

Only the last multi-grid step is run in a hot restart, but the mpol and ntor
schedules were kept and run() rejected them.
---
 src/vmecpp/simsopt_compat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmecpp/simsopt_compat.py b/src/vmecpp/simsopt_compat.py
index 9778c83..d55fab2 100644
--- a/src/vmecpp/simsopt_compat.py
+++ b/src/vmecpp/simsopt_compat.py
@@ -249,6 +249,7 @@ class Vmec(Optimizable):
             indata.ns_array = indata.ns_array[-1:]  # type: ignore
             indata.ftol_array = indata.ftol_array[-1:]  # type: ignore
             indata.niter_array = indata.niter_array[-1:]  # type: ignore
+            indata.mpol, indata.ntor = self._last_mpol_ntor(indata)
 
         logger.debug("Running VMEC++")
 
-- 
2.43.0


From 437e03daafa7de6dd33117fa430a365366a8eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:15 +0000
Subject: [PATCH 47/62] fix: keep boundary coefficients with m=0 and n<0 in the
 SIMSOPT wrapper

They are part of the boundary in a direct run, but SurfaceRZFourier ignores
them, so that the wrapper computed the equilibrium of another boundary.
---
 src/vmecpp/simsopt_compat.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vmecpp/simsopt_compat.py b/src/vmecpp/simsopt_compat.py
index d55fab2..a7f65d9 100644
--- a/src/vmecpp/simsopt_compat.py
+++ b/src/vmecpp/simsopt_compat.py
@@ -172,6 +172,16 @@ class Vmec(Optimizable):
                         assert vi.zbc is not None
                         self._boundary.rs[m, n] = vi.rbs[m, n]
                         self._boundary.zc[m, n] = vi.zbc[m, n]
+            # SurfaceRZFourier has no degrees of freedom for m=0, n<0:
+            # add those coefficients to the equivalent ones with m=0, n>0.
+            for n in range(1, ntor + 1):
+                self._boundary.rc[0, ntor + n] += vi.rbc[0, ntor - n]
+                self._boundary.zs[0, ntor + n] -= vi.zbs[0, ntor - n]
+                if vi.lasym:
+                    assert vi.rbs is not None
+                    assert vi.zbc is not None
+                    self._boundary.rs[0, ntor + n] -= vi.rbs[0, ntor - n]
+                    self._boundary.zc[0, ntor + n] += vi.zbc[0, ntor - n]
             self._boundary.local_full_x = self._boundary.get_dofs()
 
         elif basename.startswith("wout"):  # from output results
-- 
2.43.0


From 90958dc3029040b1fa7f99472757226a2abf2d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:04 +0000
Subject: [PATCH 48/62] fix: check the consistency of inputs and the thread
 count before using them

Vmec's constructor and IsConsistent itself used unset or too short arrays
(lasym without asymmetric arrays, ftol_array or niter_array shorter than
ns_array), and invalid sizes or thread counts ended in an aborted process.
---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 20 +++++++++++++++++++
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc       | 11 ++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 274645f..bbe1899 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1325,6 +1325,12 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   // ftol_array
+  if (vmec_indata.ftol_array.size() < vmec_indata.ns_array.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variable 'ftol_array' needs to have at least as many entries as "
+        "'ns_array' (%ld), but size is %ld\n",
+        vmec_indata.ns_array.size(), vmec_indata.ftol_array.size()));
+  }
   for (Eigen::VectorXi::Index idx = 0; idx < vmec_indata.ns_array.size();
        ++idx) {
     double ftol = vmec_indata.ftol_array[idx];
@@ -1337,6 +1343,12 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   // niter_array
+  if (vmec_indata.niter_array.size() < vmec_indata.ns_array.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variable 'niter_array' needs to have at least as many entries "
+        "as 'ns_array' (%ld), but size is %ld\n",
+        vmec_indata.ns_array.size(), vmec_indata.niter_array.size()));
+  }
   for (Eigen::VectorXi::Index idx = 0; idx < vmec_indata.ns_array.size();
        ++idx) {
     int niter = vmec_indata.niter_array[idx];
@@ -1527,6 +1539,14 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   if (vmec_indata.lasym) {
+    // when lasym == true, these arrays need to be set
+    if (!vmec_indata.raxis_s.has_value() || !vmec_indata.zaxis_c.has_value() ||
+        !vmec_indata.rbs.has_value() || !vmec_indata.zbc.has_value()) {
+      return absl::InvalidArgumentError(
+          "input variables 'raxis_s', 'zaxis_c', 'rbs' and 'zbc' need to be "
+          "set "
+          "when 'lasym' is true.");
+    }
     // raxis_s
     if (vmec_indata.raxis_s->size() != expected_axis_size) {
       return absl::InvalidArgumentError(
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 72adac5..0065fe2 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -168,6 +168,17 @@ absl::StatusOr<std::unique_ptr<Vmec>> Vmec::FromIndata(
     const makegrid::MagneticFieldResponseTable* magnetic_response_table,
     std::optional<int> max_threads, OutputMode verbose,
     InterruptCallback interrupt_callback) {
+  // The constructor relies on consistent sizes, so check before calling it.
+  const absl::Status is_indata_consistent =
+      IsConsistent(indata, /*enable_info_messages=*/false);
+  if (!is_indata_consistent.ok()) {
+    return is_indata_consistent;
+  }
+  if (max_threads.has_value() && *max_threads <= 0) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "the number of threads must be >= 1, but is %d", *max_threads));
+  }
+
   auto v = std::make_unique<Vmec>(indata, max_threads, verbose,
                                   std::move(interrupt_callback));
 
-- 
2.43.0


From f0267768445ea948bed1df3017c3dc50920e67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:19 +0000
Subject: [PATCH 49/62] fix: report resolutions whose array sizes overflow

Huge values of nfp, mpol, ntor, ntheta, nzeta or ns_array overflowed the
computation of array sizes.
---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 75 +++++++++++++++++--
 1 file changed, 70 insertions(+), 5 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index bbe1899..aafe648 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -6,6 +6,8 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -29,6 +31,59 @@ namespace {
       "There was an error " + context + ":\n" + std::string(status.message());
   throw std::runtime_error(msg);
 }
+
+// Check that the array of boundary coefficients, (mpol, 2 * ntor + 1), has a
+// size that can be represented.
+absl::Status CheckFourierResolution(int mpol, int ntor) {
+  if (mpol < 0 || ntor < 0) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variables 'mpol' and 'ntor' must not be negative, but are %d "
+        "and %d\n",
+        mpol, ntor));
+  }
+  constexpr std::int64_t kMaxSize = std::numeric_limits<int>::max();
+  const std::int64_t num_n = 2 * static_cast<std::int64_t>(ntor) + 1;
+  if (num_n > kMaxSize || mpol > kMaxSize / num_n) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variables 'mpol' and 'ntor' are too large: %d and %d\n", mpol,
+        ntor));
+  }
+  return absl::OkStatus();
+}
+
+// Check that the sizes of the arrays used in a run can be represented.
+absl::Status CheckArraySizes(const vmecpp::VmecINDATA& indata) {
+  constexpr double kMaxSize = std::numeric_limits<int>::max();
+  const double mpol = indata.mpol;
+  const double ntor = indata.ntor;
+  // see vmecpp::Sizes for the minimum number of grid points
+  const double num_theta =
+      std::max(static_cast<double>(indata.ntheta), 2 * mpol + 6);
+  const double num_zeta =
+      std::max(static_cast<double>(indata.nzeta), 2 * ntor + 4);
+  const double ns = indata.ns_array.maxCoeff();
+  // Nyquist-extended Fourier basis and real-space grid
+  const double num_modes = (num_theta / 2 + 1) * (num_zeta + 1);
+  const double num_points = num_theta * num_zeta;
+  // toroidal mode numbers are multiples of nfp
+  double largest = std::max(ns * std::max(num_modes, num_points),
+                            num_zeta * static_cast<double>(indata.nfp));
+  if (indata.lfreeb) {
+    // matrix of the vacuum solver
+    const double num_potential =
+        (indata.lasym ? 2 : 1) * (2 * ntor + 1) * (mpol + 2);
+    largest = std::max(
+        {largest, num_potential * num_potential, num_points * num_potential});
+  }
+  if (largest > kMaxSize) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "the numerical resolution is too large: nfp=%d, mpol=%d, ntor=%d, "
+        "ntheta=%d, nzeta=%d, ns=%d\n",
+        indata.nfp, indata.mpol, indata.ntor, indata.ntheta, indata.nzeta,
+        static_cast<int>(ns)));
+  }
+  return absl::OkStatus();
+}
 }  // namespace
 
 namespace vmecpp {
@@ -189,6 +244,12 @@ VmecINDATA::VmecINDATA() {
 void VmecINDATA::SetMpolNtor(int new_mpol, int new_ntor) {
   using Eigen::VectorXd;
 
+  const absl::Status resolution_status =
+      CheckFourierResolution(new_mpol, new_ntor);
+  if (!resolution_status.ok()) {
+    throw std::invalid_argument(std::string(resolution_status.message()));
+  }
+
   // When lasym is set but the asymmetric arrays have not been allocated yet
   // (e.g. an object assembled field-by-field via the Python bindings), give
   // them their zero defaults at the current resolution, so both the resize
@@ -532,11 +593,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
   }
 
   // The sizes of the arrays read below are derived from mpol and ntor.
-  if (vmec_indata.mpol < 0 || vmec_indata.ntor < 0) {
-    return absl::InvalidArgumentError(absl::StrFormat(
-        "input variables 'mpol' and 'ntor' must not be negative, but are %d "
-        "and %d\n",
-        vmec_indata.mpol, vmec_indata.ntor));
+  const absl::Status resolution_status =
+      CheckFourierResolution(vmec_indata.mpol, vmec_indata.ntor);
+  if (!resolution_status.ok()) {
+    return resolution_status;
   }
 
   auto maybe_mpol_geometry = JsonReadInt(j, "mpol_geometry");
@@ -1324,6 +1384,11 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
                         vmec_indata.ns_array.size()));
   }
 
+  const absl::Status array_sizes_status = CheckArraySizes(vmec_indata);
+  if (!array_sizes_status.ok()) {
+    return array_sizes_status;
+  }
+
   // ftol_array
   if (vmec_indata.ftol_array.size() < vmec_indata.ns_array.size()) {
     return absl::InvalidArgumentError(absl::StrFormat(
-- 
2.43.0


From cabbf7a0eb27a36d7fe39ac5b8b6b1c685343659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 50/62] fix: report unusable grids of the vacuum field instead
 of reading out of bounds

---
 .../common/makegrid_lib/makegrid_lib.cc       | 27 ++++++++++++-
 .../mgrid_provider/mgrid_provider.cc          | 40 +++++++++++++++++++
 2 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index 8233056..0268fff 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -4,6 +4,8 @@
 // SPDX-License-Identifier: MIT
 #include "vmecpp/common/makegrid_lib/makegrid_lib.h"
 
+#include <cmath>
+#include <limits>
 #include <optional>
 #include <string>
 #include <vector>
@@ -88,6 +90,27 @@ absl::Status IsValidMakegridParameters(
                         makegrid_parameters.number_of_phi_grid_points));
   }
 
+  // the grid has to be finite
+  for (const double limit :
+       {makegrid_parameters.r_grid_minimum, makegrid_parameters.r_grid_maximum,
+        makegrid_parameters.z_grid_minimum,
+        makegrid_parameters.z_grid_maximum}) {
+    if (!std::isfinite(limit)) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "the limits of the grid must be finite, but one is %g", limit));
+    }
+  }
+
+  // the number of grid points and of toroidal planes has to be representable
+  constexpr double kMaxSize = std::numeric_limits<int>::max();
+  const double num_phi = makegrid_parameters.number_of_phi_grid_points;
+  if (num_phi * makegrid_parameters.number_of_z_grid_points *
+              makegrid_parameters.number_of_r_grid_points >
+          kMaxSize ||
+      num_phi * makegrid_parameters.number_of_field_periods > kMaxSize) {
+    return absl::InvalidArgumentError("the number of grid points is too large");
+  }
+
   return absl::OkStatus();
 }  // IsValidMakegridParameters
 
@@ -274,7 +297,9 @@ absl::StatusOr<MakegridParameters> ImportMakegridParametersFromFile(
     const std::filesystem::path& makegrid_parameters_file) {
   const auto maybe_makegrid_params_json =
       file_io::ReadFile(makegrid_parameters_file);
-  CHECK_OK(maybe_makegrid_params_json);
+  if (!maybe_makegrid_params_json.ok()) {
+    return maybe_makegrid_params_json.status();
+  }
   const auto& makegrid_params_json = *maybe_makegrid_params_json;
   return ImportMakegridParametersFromJson(makegrid_params_json);
 }  // ImportMakegridParametersFromFile
diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
index b1291d8..2eea843 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
@@ -148,6 +148,23 @@ absl::Status MGridProvider::LoadFile(const std::filesystem::path& filename,
     return with_context(read_status);
   }
 
+  // The grid has to be usable for interpolation.
+  makegrid::MakegridParameters grid_parameters;
+  grid_parameters.number_of_field_periods = *nfp_or;
+  grid_parameters.r_grid_minimum = *min_r_or;
+  grid_parameters.r_grid_maximum = *max_r_or;
+  grid_parameters.number_of_r_grid_points = *num_r_or;
+  grid_parameters.z_grid_minimum = *min_z_or;
+  grid_parameters.z_grid_maximum = *max_z_or;
+  grid_parameters.number_of_z_grid_points = *num_z_or;
+  grid_parameters.number_of_phi_grid_points = *num_phi_or;
+  const absl::Status grid_status =
+      makegrid::IsValidMakegridParameters(grid_parameters);
+  if (!grid_status.ok()) {
+    nc_close(ncid);
+    return with_context(grid_status);
+  }
+
   nfp = *nfp_or;
 
   numR = *num_r_or;
@@ -263,6 +280,29 @@ absl::Status MGridProvider::LoadFields(
         coil_currents.size(), magnetic_response_table.b_p.rows()));
   }
 
+  const absl::Status grid_status =
+      makegrid::IsValidMakegridParameters(mgrid_params);
+  if (!grid_status.ok()) {
+    return grid_status;
+  }
+
+  const Eigen::Index expected_num_points =
+      static_cast<Eigen::Index>(mgrid_params.number_of_phi_grid_points) *
+      mgrid_params.number_of_z_grid_points *
+      mgrid_params.number_of_r_grid_points;
+  for (const auto* field :
+       {&magnetic_response_table.b_r, &magnetic_response_table.b_p,
+        &magnetic_response_table.b_z}) {
+    if (field->rows() != coil_currents.size() ||
+        field->cols() != expected_num_points) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "A field of the response table has shape (%d, %d), expected (%d, "
+          "%d).",
+          field->rows(), field->cols(), coil_currents.size(),
+          expected_num_points));
+    }
+  }
+
   nfp = mgrid_params.number_of_field_periods;
 
   numR = mgrid_params.number_of_r_grid_points;
-- 
2.43.0


From cce57a49884c9cec70ef8b0101a2a63dcff5292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 51/62] fix: report invalid arguments of VmecModel and response
 tables that do not match the input

---
 .../common/flow_control/flow_control.cc       |  6 ++-
 .../cpp/vmecpp/vmec/pybind11/pybind_vmec.cc   | 47 ++++++++++++++++-
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc       | 51 +++++++++++++------
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h        |  6 +++
 4 files changed, 92 insertions(+), 18 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
index 5f90795..8142ba3 100644
--- a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
+++ b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
@@ -4,6 +4,9 @@
 // SPDX-License-Identifier: MIT
 #include "vmecpp/common/flow_control/flow_control.h"
 
+#include <stdexcept>
+#include <string>
+
 #include "absl/log/check.h"
 #ifdef _OPENMP
 #include <omp.h>
@@ -22,7 +25,8 @@ RestartReason RestartReasonFromInt(int restart_reason) {
     case 4:
       return RestartReason::HUGE_INITIAL_FORCES;
     default:
-      __builtin_unreachable();
+      throw std::invalid_argument("invalid restart reason: " +
+                                  std::to_string(restart_reason));
   }
 }
 
diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index 5020dbe..a25fe56 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -163,6 +163,17 @@ class VmecModel {
   explicit VmecModel(std::unique_ptr<vmecpp::Vmec> vmec)
       : vmec_(std::move(vmec)) {}
 
+  // Check that a solve at the given radial resolution is possible.
+  static void CheckRadialResolution(const VmecINDATA &indata, int ns) {
+    VmecINDATA single_resolution = indata;
+    single_resolution.ns_array = Eigen::VectorXi::Constant(1, ns);
+    const absl::Status status = vmecpp::IsConsistent(
+        single_resolution, /*enable_info_messages=*/false);
+    if (!status.ok()) {
+      throw std::runtime_error(std::string(status.message()));
+    }
+  }
+
   // Build a single-threaded Vmec, initialized at a single radial resolution
   // (the inner solve VMEC++ performs at one multi-grid step). The Python loop
   // owns the multi-grid sequencing.
@@ -175,6 +186,14 @@ class VmecModel {
     if (!vmec_or.ok()) {
       throw std::runtime_error(std::string(vmec_or.status().message()));
     }
+    CheckRadialResolution(indata, ns);
+    if (initial_state.has_value()) {
+      const absl::Status status =
+          vmecpp::CheckInitialState(*initial_state, indata, ns);
+      if (!status.ok()) {
+        throw std::runtime_error(std::string(status.message()));
+      }
+    }
     auto model = std::make_unique<VmecModel>(std::move(vmec_or.value()));
     vmecpp::Vmec &v = *model->vmec_;
 
@@ -231,6 +250,11 @@ class VmecModel {
   // F(x) does not depend on the previously evaluated state.
   void Evaluate(int iter1, int iter2, bool precondition = true,
                 bool always_fix_m1_gauge = true) {
+    if (iter1 < 0 || iter2 < 0) {
+      throw std::runtime_error(
+          "VmecModel.evaluate: iteration counters must not be negative (got " +
+          std::to_string(iter1) + " and " + std::to_string(iter2) + ")");
+    }
     bool need_restart = false;
     std::string error_message;
     const vmecpp::VmecCheckpoint checkpoint =
@@ -355,6 +379,8 @@ class VmecModel {
                                std::to_string(v.fc_.ns) + ")");
     }
 
+    CheckRadialResolution(v.indata_, new_ns);
+
     // Mark the current (converged) resolution as the coarse grid to interpolate
     // from -- this is what run() does at the bottom of each multi-grid step.
     const int ns_old = v.fc_.ns;
@@ -422,23 +448,40 @@ class VmecModel {
                                        double eps_rel = 1e-7) {
     const Eigen::VectorXd x =
         FlattenActive(*vmec_->decomposed_x_[0], vmec_->s_);
+    if (v.size() != x.size()) {
+      throw std::runtime_error(
+          "VmecModel.hessian_vector_product: vector has wrong length (got " +
+          std::to_string(v.size()) + ", expected " + std::to_string(x.size()) +
+          ")");
+    }
     const double vnorm = v.norm();
     if (vnorm == 0.0) {
       return Eigen::VectorXd::Zero(x.size());
     }
     const double eps = eps_rel * (1.0 + x.norm()) / vnorm;
     UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x + eps * v);
-    Evaluate(2, 2, /*precondition=*/false);
+    EvaluateOrRestore(x);
     const Eigen::VectorXd fp =
         FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);
     UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x - eps * v);
-    Evaluate(2, 2, /*precondition=*/false);
+    EvaluateOrRestore(x);
     const Eigen::VectorXd fm =
         FlattenActive(*vmec_->decomposed_f_[0], vmec_->s_);
     UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x);
     return (fp - fm) / (2.0 * eps);
   }
 
+  // Evaluate the raw force at the current state, going back to state `x` if
+  // that fails.
+  void EvaluateOrRestore(const Eigen::VectorXd &x) {
+    try {
+      Evaluate(2, 2, /*precondition=*/false);
+    } catch (...) {
+      UnflattenActive(*vmec_->decomposed_x_[0], vmec_->s_, x);
+      throw;
+    }
+  }
+
   // Apply VMEC's preconditioner M^-1 to a vector in the decomposed internal
   // basis, mirroring the native apply sequence (m=1, radial, lambda). This is
   // VMEC's hand-built approximate inverse Hessian; gradient-based solvers use
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 0065fe2..8a65f67 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -56,11 +56,34 @@ void UpdateStatusForThread(absl::Status& m_status_of_all_threads, int thread_id,
   m_status_of_all_threads = absl::InternalError(new_msg);
 }
 
+// Check that the vacuum field is available on the toroidal planes on which it
+// is needed.
+absl::Status CheckMGrid(const vmecpp::MGridProvider& mgrid,
+                        const vmecpp::VmecINDATA& indata,
+                        const vmecpp::Sizes& s) {
+  // s.nZeta is larger than indata.nzeta if the latter is too small for ntor.
+  if (mgrid.numPhi != indata.nzeta || mgrid.numPhi != s.nZeta) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "MGridProvider has %d phi grid points, but VmecINDATA "
+        "has %d nzeta grid points and needs %d. Please ensure that these "
+        "are consistent.",
+        mgrid.numPhi, indata.nzeta, s.nZeta));
+  }
+  if (mgrid.numPhi > 1 && mgrid.nfp != indata.nfp) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("MGridProvider has %d field periods, but VmecINDATA "
+                        "has %d. Please ensure that the two are consistent.",
+                        mgrid.nfp, indata.nfp));
+  }
+  return absl::OkStatus();
+}
+}  // namespace
+
 // Check preconditions on (initial_state, indata) pair passed to Vmec::run
 // in order to make sure that the state to hot-restart from can be copied over
 // 1:1.
-absl::Status CheckInitialState(const vmecpp::HotRestartState& initial_state,
-                               const vmecpp::VmecINDATA& indata) {
+absl::Status vmecpp::CheckInitialState(const HotRestartState& initial_state,
+                                       const VmecINDATA& indata, int ns) {
   const auto msg_start = "Mismatch in variable '";
   const auto msg_end =
       "' between hot restart initial state and indata. This is not supported "
@@ -84,20 +107,18 @@ absl::Status CheckInitialState(const vmecpp::HotRestartState& initial_state,
 
   // check for matching `ns`
   if (initial_state.indata.ns_array.size() == 0 ||
-      indata.ns_array.size() == 0 ||
       initial_state.indata.ns_array[initial_state.indata.ns_array.size() - 1] !=
-          indata.ns_array[0]) {
+          ns) {
     return absl::InvalidArgumentError(
         absl::StrCat(msg_start, "ns_array", msg_end));
   }
 
   // check that the state itself has the sizes implied by the above
   const int mnmax = indata.ntor + 1 + (indata.mpol - 1) * (2 * indata.ntor + 1);
-  const int ns = indata.ns_array[0];
-  const auto has_expected_shape = [&](const vmecpp::RowMatrixXd& coefficients) {
+  const auto has_expected_shape = [&](const RowMatrixXd& coefficients) {
     return coefficients.rows() == mnmax && coefficients.cols() == ns;
   };
-  const vmecpp::WOutFileContents& wout = initial_state.wout;
+  const WOutFileContents& wout = initial_state.wout;
   if (!has_expected_shape(wout.rmnc) || !has_expected_shape(wout.zmns) ||
       !has_expected_shape(wout.lmns_full)) {
     return absl::InvalidArgumentError(
@@ -112,7 +133,6 @@ absl::Status CheckInitialState(const vmecpp::HotRestartState& initial_state,
 
   return absl::OkStatus();
 }
-}  // namespace
 
 absl::StatusOr<vmecpp::OutputQuantities> vmecpp::run(
     const VmecINDATA& indata, std::optional<HotRestartState> initial_state,
@@ -191,6 +211,9 @@ absl::StatusOr<std::unique_ptr<Vmec>> Vmec::FromIndata(
     } else {
       s = v->mgrid_.LoadFields(*magnetic_response_table, indata.extcur);
     }
+    if (s.ok()) {
+      s = CheckMGrid(v->mgrid_, v->indata_, v->s_);
+    }
     if (!s.ok()) {
       return s;
     }
@@ -268,12 +291,9 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
         return status;
       }
     }
-    if (mgrid_.numPhi != indata_.nzeta) {
-      return absl::InvalidArgumentError(absl::StrFormat(
-          "MGridProvider has %d phi grid points, but VmecINDATA "
-          "has %d nzeta grid points. Please ensure that the two "
-          "are consistent.",
-          mgrid_.numPhi, indata_.nzeta));
+    absl::Status status = CheckMGrid(mgrid_, indata_, s_);
+    if (!status.ok()) {
+      return status;
     }
   }
 
@@ -284,7 +304,8 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
   }
 
   if (initial_state.has_value()) {
-    absl::Status status = CheckInitialState(*initial_state, indata_);
+    absl::Status status =
+        CheckInitialState(*initial_state, indata_, indata_.ns_array[0]);
     if (!status.ok()) {
       return status;
     }
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h
index 467b94d..850f8df 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h
@@ -59,6 +59,12 @@ struct HotRestartState {
         indata(std::move(output_quantities.indata)) {}
 };
 
+// Check that the state to hot-restart from matches `indata` and the radial
+// resolution `ns` of the first multi-grid step, so that it can be copied over
+// 1:1.
+absl::Status CheckInitialState(const HotRestartState& initial_state,
+                               const VmecINDATA& indata, int ns);
+
 // Callback that returns true if execution should be interrupted (e.g., Ctrl+C).
 // Called periodically from the iteration loop.
 using InterruptCallback = std::function<bool()>;
-- 
2.43.0


From ea4144e42ec88e3d09d25073f843bdd5398e779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 52/62] fix: report unsupported profile types and missing
 spline data

---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 80 ++++++++++++++-----
 1 file changed, 62 insertions(+), 18 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index aafe648..c62d9f9 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -11,6 +11,7 @@
 #include <stdexcept>
 #include <string>
 #include <utility>
+#include <vector>
 
 #include "H5Cpp.h"
 #include "absl/log/log.h"
@@ -51,6 +52,37 @@ absl::Status CheckFourierResolution(int mpol, int ntor) {
   return absl::OkStatus();
 }
 
+// Check that a profile parameterization is available for the given profile and
+// that the data it needs was provided.
+absl::Status CheckProfile(const std::string& variable, const std::string& type,
+                          const std::vector<std::string>& allowed_types,
+                          const Eigen::VectorXd& spline_knots,
+                          const Eigen::VectorXd& spline_values) {
+  if (std::find(allowed_types.begin(), allowed_types.end(), type) ==
+      allowed_types.end()) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("value '%s' of input variable '%s' is not supported\n",
+                        type, variable));
+  }
+
+  int min_num_knots = 0;
+  if (type.starts_with("akima_spline") || type.starts_with("cubic_spline")) {
+    min_num_knots = 4;
+  } else if (type.starts_with("line_segment")) {
+    min_num_knots = 2;
+  }
+  if (min_num_knots > 0 && (spline_knots.size() < min_num_knots ||
+                            spline_knots.size() != spline_values.size())) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "value '%s' of input variable '%s' needs at least %d spline knots and "
+        "as many values, but got %ld and %ld\n",
+        type, variable, min_num_knots, spline_knots.size(),
+        spline_values.size()));
+  }
+
+  return absl::OkStatus();
+}
+
 // Check that the sizes of the arrays used in a run can be represented.
 absl::Status CheckArraySizes(const vmecpp::VmecINDATA& indata) {
   constexpr double kMaxSize = std::numeric_limits<int>::max();
@@ -1442,16 +1474,20 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
 
   /* --------------------------------- */
 
-  // pmass_type
-  // TODO(jons): check for allowed value
+  // pmass_type, am_aux_s, am_aux_f
+  const absl::Status pmass_type_status =
+      CheckProfile("pmass_type", vmec_indata.pmass_type,
+                   {"power_series", "gauss_trunc", "two_lorentz", "two_power",
+                    "two_power_gs", "akima_spline", "cubic_spline", "pedestal",
+                    "rational", "line_segment"},
+                   vmec_indata.am_aux_s, vmec_indata.am_aux_f);
+  if (!pmass_type_status.ok()) {
+    return pmass_type_status;
+  }
 
   // am
   // TODO(jons): must be given for parameterized profiles
 
-  // am_aux_s
-  // am_aux_f
-  // TODO(jons): must be given for spline data profiles
-
   // pres_scale
   if (vmec_indata.pres_scale < 0) {
     return absl::InvalidArgumentError(absl::StrFormat(
@@ -1476,16 +1512,19 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   /* --------------------------------- */
 
   if (vmec_indata.ncurr == 0) {
-    // piota_type
-    // TODO(jons): check for allowed value
+    // piota_type, ai_aux_s, ai_aux_f
+    const absl::Status piota_type_status = CheckProfile(
+        "piota_type", vmec_indata.piota_type,
+        {"power_series", "sum_atan", "akima_spline", "cubic_spline", "rational",
+         "line_segment", "nice_quadratic"},
+        vmec_indata.ai_aux_s, vmec_indata.ai_aux_f);
+    if (!piota_type_status.ok()) {
+      return piota_type_status;
+    }
 
     // ai
     // TODO(jons): must be given for parameterized profiles
 
-    // ai_aux_s
-    // ai_aux_f
-    // TODO(jons): must be given for spline data profiles
-
     if (vmec_indata.bloat != 1.0) {
       // bloat != 1 is only allowed when ncurr == 1 (constrained toroidal
       // current)
@@ -1496,16 +1535,21 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
     }
 
   } else if (vmec_indata.ncurr == 1) {
-    // pcurr_type
-    // TODO(jons): check for allowed value
+    // pcurr_type, ac_aux_s, ac_aux_f
+    const absl::Status pcurr_type_status = CheckProfile(
+        "pcurr_type", vmec_indata.pcurr_type,
+        {"power_series", "power_series_i", "gauss_trunc", "sum_atan",
+         "two_power", "two_power_gs", "akima_spline_i", "akima_spline_ip",
+         "cubic_spline_i", "cubic_spline_ip", "pedestal", "rational",
+         "line_segment_i", "line_segment_ip"},
+        vmec_indata.ac_aux_s, vmec_indata.ac_aux_f);
+    if (!pcurr_type_status.ok()) {
+      return pcurr_type_status;
+    }
 
     // ac
     // TODO(jons): must be given for parameterized profiles
 
-    // ac_aux_s
-    // ac_aux_f
-    // TODO(jons): must be given for spline data profiles
-
     // curtor --> any value is ok
 
     // bloat --> any value is ok
-- 
2.43.0


From e6e3c562b21a0c22759a9dc6770ff4da5a532eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:42 +0000
Subject: [PATCH 53/62] fix: report non-finite input parameters

---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index c62d9f9..199218d 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -6,7 +6,9 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <cstdint>
+#include <initializer_list>
 #include <limits>
 #include <stdexcept>
 #include <string>
@@ -1459,6 +1461,23 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
 
   /* --------------------------------- */
 
+  // comparisons with NaN are always false, so check this separately
+  for (const auto& [name, value] :
+       std::initializer_list<std::pair<const char*, double>>{
+           {"phiedge", vmec_indata.phiedge},
+           {"pres_scale", vmec_indata.pres_scale},
+           {"adiabatic_index", vmec_indata.gamma},
+           {"spres_ped", vmec_indata.spres_ped},
+           {"curtor", vmec_indata.curtor},
+           {"bloat", vmec_indata.bloat},
+           {"delt", vmec_indata.delt},
+           {"tcon0", vmec_indata.tcon0}}) {
+    if (!std::isfinite(value)) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "input variable '%s' must be finite, but is %g\n", name, value));
+    }
+  }
+
   // phiedge
   if (vmec_indata.phiedge == 0.0) {
     return absl::InvalidArgumentError(
-- 
2.43.0


From 20c7f37108753584c788fe6584c245461e31d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:46 +0000
Subject: [PATCH 54/62] fix: report coils files without any coil

---
 .../magnetic_configuration_lib.cc                        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index 8d9902c..0420762 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -229,7 +229,14 @@ absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromCoilsFile(
   if (!maybe_coils_file_content.ok()) {
     return maybe_coils_file_content.status();
   }
-  return ImportMagneticConfigurationFromMakegrid(*maybe_coils_file_content);
+  auto maybe_magnetic_configuration =
+      ImportMagneticConfigurationFromMakegrid(*maybe_coils_file_content);
+  if (maybe_magnetic_configuration.ok() &&
+      maybe_magnetic_configuration->serial_circuits_size() == 0) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("no coils found in '", mgrid_coils_file.string(), "'"));
+  }
+  return maybe_magnetic_configuration;
 }
 
 absl::StatusOr<Eigen::VectorXd> GetCircuitCurrents(
-- 
2.43.0


From 35391a6fc0f5a98234fd5e373eacae84e67dba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:50 +0000
Subject: [PATCH 55/62] fix: report a negative nvacskip also for fixed-boundary
 inputs

---
 .../cpp/vmecpp/common/vmec_indata/vmec_indata.cc  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 199218d..57fa8c7 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1576,6 +1576,14 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
 
   /* --------------------------------- */
 
+  // nvacskip
+  // not used in fixed-boundary runs, but has to be non-negative also there
+  if (vmec_indata.nvacskip < (vmec_indata.lfreeb ? 1 : 0)) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("input variable nvacskip needs to be > 0, but is %d\n",
+                        vmec_indata.nvacskip));
+  }
+
   // lfreeb
   // nothing to check here: lfreeb can be true or false and both are valid...
   if (vmec_indata.lfreeb) {
@@ -1586,13 +1594,6 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
     // TODO(jons): check that number of coil currents matches number of response
     // tables in mgrid file
 
-    // nvacskip
-    if (vmec_indata.nvacskip < 1) {
-      return absl::InvalidArgumentError(absl::StrFormat(
-          "input variable nvacskip needs to be > 0, but is %d\n",
-          vmec_indata.nvacskip));
-    }
-
     // free_boundary_method
     // For the current state of the code, we only accept NESTOR,
     // but in the future [TODO(jons)] also all other (implemented) enum values
-- 
2.43.0


From ff9ef69dc8a462067ba85b21111997672b091027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:50 +0000
Subject: [PATCH 56/62] fix: check the shape of mgrid variables before reading
 them

---
 .../mgrid_provider/mgrid_provider.cc          | 80 ++++++++++---------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
index 2eea843..dd9364a 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
@@ -7,6 +7,7 @@
 #include <netcdf.h>
 
 #include <algorithm>
+#include <array>
 #include <cfloat>  // DBL_MAX
 #include <cstdio>
 #include <fstream>
@@ -28,32 +29,32 @@ using netcdf_io::NetcdfReadString;
 
 namespace {
 
-absl::Status ValidateFieldContributionShape(
-    const std::vector<std::vector<std::vector<double> > >& field_contribution,
-    const std::string& variable_name, int num_phi, int num_z, int num_r) {
-  if (field_contribution.size() != static_cast<size_t>(num_phi)) {
-    return absl::InvalidArgumentError(
-        absl::StrFormat("Variable '%s' has %d phi slices, expected %d.",
-                        variable_name, field_contribution.size(), num_phi));
+// Check the shape of a variable before reading it: the sizes in a damaged file
+// can require more memory than there is.
+absl::Status ValidateVariableShape(int ncid, const std::string& variable_name,
+                                   int num_phi, int num_z, int num_r) {
+  int variable_id = 0;
+  int rank = 0;
+  if (nc_inq_varid(ncid, variable_name.c_str(), &variable_id) != NC_NOERR ||
+      nc_inq_varndims(ncid, variable_id, &rank) != NC_NOERR || rank != 3) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Variable '%s' does not exist or is not a rank-3 array.",
+        variable_name));
   }
-
-  for (int index_phi = 0; index_phi < num_phi; ++index_phi) {
-    if (field_contribution[index_phi].size() != static_cast<size_t>(num_z)) {
-      return absl::InvalidArgumentError(absl::StrFormat(
-          "Variable '%s' has %d z slices at phi index %d, expected %d.",
-          variable_name, field_contribution[index_phi].size(), index_phi,
-          num_z));
-    }
-    for (int index_z = 0; index_z < num_z; ++index_z) {
-      if (field_contribution[index_phi][index_z].size() !=
-          static_cast<size_t>(num_r)) {
-        return absl::InvalidArgumentError(absl::StrFormat(
-            "Variable '%s' has %d r points at phi index %d and z index %d, "
-            "expected %d.",
-            variable_name, field_contribution[index_phi][index_z].size(),
-            index_phi, index_z, num_r));
-      }
-    }
+  std::array<int, 3> dimension_ids{};
+  std::array<size_t, 3> dimensions{};
+  bool ok =
+      nc_inq_vardimid(ncid, variable_id, dimension_ids.data()) == NC_NOERR;
+  for (int i = 0; i < 3 && ok; ++i) {
+    ok = nc_inq_dimlen(ncid, dimension_ids[i], &dimensions[i]) == NC_NOERR;
+  }
+  if (!ok || dimensions[0] != static_cast<size_t>(num_phi) ||
+      dimensions[1] != static_cast<size_t>(num_z) ||
+      dimensions[2] != static_cast<size_t>(num_r)) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Variable '%s' has shape (%d, %d, %d), expected (%d, %d, %d).",
+        variable_name, dimensions[0], dimensions[1], dimensions[2], num_phi,
+        num_z, num_r));
   }
   return absl::OkStatus();
 }
@@ -190,6 +191,18 @@ absl::Status MGridProvider::LoadFile(const std::filesystem::path& filename,
 
   mgrid_mode = *mgrid_mode_or;
 
+  for (int i = 0; i < nextcur; ++i) {
+    for (const char* component : {"br", "bp", "bz"}) {
+      const absl::Status shape_status = ValidateVariableShape(
+          ncid, absl::StrFormat("%s_%03d", component, i + 1), numPhi, numZ,
+          numR);
+      if (!shape_status.ok()) {
+        nc_close(ncid);
+        return with_context(shape_status);
+      }
+    }
+  }
+
   // Resize and make sure that the accumulation arrays are reset to zeros
   // if they contained previous contents from an earlier call to this routine.
   bR.setZero(numPhi * numZ * numR);
@@ -203,14 +216,15 @@ absl::Status MGridProvider::LoadFile(const std::filesystem::path& filename,
     // from i=1, 2, ..., nextcur
 
     std::string br_variable = absl::StrFormat("br_%03d", i + 1);
+    std::string bp_variable = absl::StrFormat("bp_%03d", i + 1);
+    std::string bz_variable = absl::StrFormat("bz_%03d", i + 1);
+
     absl::StatusOr<std::vector<std::vector<std::vector<double> > > >
         b_r_contribution_or = NetcdfReadArray3D(ncid, br_variable);
 
-    std::string bp_variable = absl::StrFormat("bp_%03d", i + 1);
     absl::StatusOr<std::vector<std::vector<std::vector<double> > > >
         b_p_contribution_or = NetcdfReadArray3D(ncid, bp_variable);
 
-    std::string bz_variable = absl::StrFormat("bz_%03d", i + 1);
     absl::StatusOr<std::vector<std::vector<std::vector<double> > > >
         b_z_contribution_or = NetcdfReadArray3D(ncid, bz_variable);
 
@@ -230,18 +244,6 @@ absl::Status MGridProvider::LoadFile(const std::filesystem::path& filename,
     std::vector<std::vector<std::vector<double> > > b_z_contribution =
         std::move(*b_z_contribution_or);
 
-    absl::Status shape_status;
-    shape_status.Update(ValidateFieldContributionShape(
-        b_r_contribution, br_variable, numPhi, numZ, numR));
-    shape_status.Update(ValidateFieldContributionShape(
-        b_p_contribution, bp_variable, numPhi, numZ, numR));
-    shape_status.Update(ValidateFieldContributionShape(
-        b_z_contribution, bz_variable, numPhi, numZ, numR));
-    if (!shape_status.ok()) {
-      nc_close(ncid);
-      return with_context(shape_status);
-    }
-
     for (int index_phi = 0; index_phi < numPhi; ++index_phi) {
       for (int index_z = 0; index_z < numZ; ++index_z) {
         for (int index_r = 0; index_r < numR; ++index_r) {
-- 
2.43.0


From 1ae6acc794ee5556dee44f01d2eb12fac4cd5e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:48 +0000
Subject: [PATCH 57/62] fix: reject fractional mpol and ntor instead of
 truncating them

---
 src/vmecpp/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index dbd3325..56cabf0 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -108,7 +108,9 @@ def _coerce_mpol_ntor(value: typing.Any) -> int | np.ndarray:
     """
     if isinstance(value, (int, np.integer)):
         return int(value)
-    array = np.atleast_1d(np.asarray(value, dtype=np.int64))
+    array = np.asarray(value)
+    array = _to_int_array(array) if array.dtype.kind == "f" else array.astype(np.int64)
+    array = np.atleast_1d(array)
     return int(array[0]) if array.size == 1 else array
 
 
-- 
2.43.0


From 8ac0058c6c3548df7149b36b4cb3293919c1b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:46 +0000
Subject: [PATCH 58/62] fix: let slow progress take precedence over a bad
 Jacobian in the Python iteration

The native vmec_8_52 time-step control replaces a bad Jacobian reported by the
forward model by BAD_PROGRESS when the slow-progress condition holds, and it does
not hold back the iteration counter when the previous residual was a new minimum.
The Python-driven iteration treated both as an ordinary bad Jacobian and took a
different path from there on.
---
 src/vmecpp/_iteration.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/vmecpp/_iteration.py b/src/vmecpp/_iteration.py
index 6b9f6b9..55d7f6b 100644
--- a/src/vmecpp/_iteration.py
+++ b/src/vmecpp/_iteration.py
@@ -449,27 +449,35 @@ def solve_equilibrium(
                 # iteration, so a forward-model bad Jacobian reverts via the same
                 # RestartIteration BAD_JACOBIAN branch as the 100x leash (delt0r
                 # *= 0.9, ijacob++). The slow-progress branch reverts gently
-                # (/1.03) without escalating ijacob.
+                # (/1.03) without escalating ijacob and takes precedence over a
+                # forward-model bad Jacobian.
                 if iter2 == iter1 or res0 == -1.0:
                     res0 = fsq1
                 res0 = min(res0, fsq1)
+                improved = fsq1 <= res0 and (iter2 - iter1) > 10
                 blew_up = fsq1 > _VMEC_8_52_BLOWUP * res0 and iter2 > iter1
-                if rr == RestartReason.BAD_JACOBIAN or blew_up:
+                slow = (
+                    not improved
+                    and not blew_up
+                    and (iter2 - iter1) > _PRECOND_INTERVAL // 2
+                    and iter2 > 2 * _PRECOND_INTERVAL
+                    and (fsqr + fsqz) > 1.0e-2
+                )
+                if blew_up or (rr == RestartReason.BAD_JACOBIAN and not slow):
                     model.restore_backup()
                     delt0r *= 0.9
                     ijacob += 1
                     iter1 = iter2
-                    bad_resets += 1
+                    # only the terminal restart check holds the iteration counter
+                    # back, not the revert in place of storing an improved state
+                    if not improved:
+                        bad_resets += 1
                     n_restarts += 1
                     restarted = True
-                elif fsq1 <= res0 and (iter2 - iter1) > 10:
+                elif improved:
                     model.save_backup()
                     saved_backup = True
-                elif (
-                    (iter2 - iter1) > _PRECOND_INTERVAL // 2
-                    and iter2 > 2 * _PRECOND_INTERVAL
-                    and (fsqr + fsqz) > 1.0e-2
-                ):
+                elif slow:
                     model.restore_backup()
                     delt0r /= 1.03
                     iter1 = iter2
-- 
2.43.0


From 76f199afeeefefdbcfd384c64366c9c2e1011475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:52 +0000
Subject: [PATCH 59/62] fix: keep the velocity when the Python iteration
 re-guesses the axis

After huge initial forces the native iteration has already performed a time step
and continues with its velocity from the re-guessed state. VmecModel.reinitialize
dropped it, so the Python-driven iteration took another path.
---
 src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index a25fe56..2f06516 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -339,8 +339,11 @@ class VmecModel {
   // model (preconditioner + scratch) starts clean; the in-place reset alone
   // leaves stale forward-model state from the failed evaluation, which the C++
   // single continuous parallel region tolerates but a step-by-step driver does
-  // not.
+  // not. The velocity is kept, as in Vmec::SolveEquilibriumLoop: after huge
+  // initial forces (unlike after a bad initial Jacobian) a time step has already
+  // been performed and the native iteration continues with its velocity.
   void Reinitialize() {
+    const vmecpp::FourierVelocity velocity = *vmec_->decomposed_v_[0];
     vmec_->b_.RecomputeMagneticAxisToFixJacobianSign(
         vmec_->fc_.nsval, vmecpp::Vmec::kSignOfJacobian);
     double delt0 = vmec_->indata_.delt;
@@ -353,6 +356,7 @@ class VmecModel {
     vmec_->InitializeRadial(vmecpp::VmecCheckpoint::NONE, INT_MAX,
                             vmec_->fc_.nsval, /*ns_old=*/0, delt0,
                             std::nullopt);
+    *vmec_->decomposed_v_[0] = velocity;
     last_preconditioner_update_ = 0;
     last_full_update_nestor_ = 0;
   }
-- 
2.43.0


From 22c6fd5fb1e34c0162b4d6021c952abf95e807b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:38 +0000
Subject: [PATCH 60/62] fix: name the kept output of input.json wout_input.nc
 as documented

---
 src/vmecpp/simsopt_compat.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/vmecpp/simsopt_compat.py b/src/vmecpp/simsopt_compat.py
index a7f65d9..d95d283 100644
--- a/src/vmecpp/simsopt_compat.py
+++ b/src/vmecpp/simsopt_compat.py
@@ -596,16 +596,10 @@ def _make_wout_filename(input_file: str | Path) -> str:
     # - input.foo.json -> wout_foo.nc
     # - input.foo.bar.json -> wout_foo.bar.nc
     input_file_basename = Path(input_file).name
-    if input_file_basename.startswith("input.") and input_file_basename.endswith(
-        ".json"
-    ):
-        out = ".".join(input_file_basename.split(".")[1:-1])
-    elif input_file_basename.endswith(".json"):
-        out = input_file_basename.removesuffix(".json")
-    elif input_file_basename.startswith("input."):
-        out = input_file_basename.removeprefix("input.")
-    else:
+    stem = input_file_basename.removesuffix(".json")
+    if stem == input_file_basename and not stem.startswith("input."):
         msg = f"Input file name {input_file} cannot be converted to output file name"
         raise RuntimeError(msg)
+    out = stem.removeprefix("input.")
 
     return f"wout_{out}.nc"
-- 
2.43.0


From 72c60715a37b0d123bfbb846e0e2a27578bd9af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:54 +0000
Subject: [PATCH 61/62] fix: reject fractional grid sizes and iteration limits
 assigned to an input

---
 src/vmecpp/__init__.py      | 6 +++++-
 src/vmecpp/_continuation.py | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 56cabf0..9eb3df5 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -771,7 +771,11 @@ class VmecInput(BaseModelWithNumpy):
                 "iteration_style",
             ):
                 continue  # these must be set separately
-            setattr(cpp_indata, attr, getattr(self, attr))
+            value = getattr(self, attr)
+            if attr in ("ns_array", "niter_array"):
+                # assigned values are not validated and would be truncated
+                value = _to_int_array(value)
+            setattr(cpp_indata, attr, value)
 
         # Convert Python enum to C++ enum
         cpp_indata.free_boundary_method = getattr(
diff --git a/src/vmecpp/_continuation.py b/src/vmecpp/_continuation.py
index 5fb5725..a28b14b 100644
--- a/src/vmecpp/_continuation.py
+++ b/src/vmecpp/_continuation.py
@@ -324,13 +324,13 @@ def _run_fourier_continuation(
     """
     import vmecpp  # noqa: PLC0415  (lazy import avoids a circular import)
 
-    ns_schedule = [int(x) for x in input.ns_array]
+    ns_schedule = vmecpp._to_int_array(input.ns_array).tolist()
     n_steps = len(ns_schedule)
 
     def _resolve(value: int | np.ndarray, name: str) -> list[int]:
         if isinstance(value, int):
             return [value] * n_steps
-        resolved = [int(x) for x in value]
+        resolved = vmecpp._to_int_array(value).tolist()
         if len(resolved) != n_steps:
             msg = (
                 f"'{name}' has {len(resolved)} entries, but 'ns_array' has "
@@ -344,7 +344,7 @@ def _run_fourier_continuation(
     mpol_schedule = _resolve(input.mpol, "mpol")
     ntor_schedule = _resolve(input.ntor, "ntor")
     ftol_schedule = [float(x) for x in input.ftol_array]
-    niter_schedule = [int(x) for x in input.niter_array]
+    niter_schedule = vmecpp._to_int_array(input.niter_array).tolist()
 
     output = restart_from
     for i in range(n_steps):
-- 
2.43.0


From aca2a17bb87520e77380ad17b45617b3ca1110f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:36 +0000
Subject: [PATCH 62/62] fix: project the sine kernel of the asymmetric vacuum
 solver over the full poloidal range

---
 .../laplace_solver/laplace_solver.cc          | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc b/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
index 16aa7bd..6b9d533 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/laplace_solver/laplace_solver.cc
@@ -429,6 +429,27 @@ void LaplaceSolver::PerformPoloidalFourierTransforms() {
         astemp_l[l] = astemp[base_idx + l];
       }
 
+      // For lasym the kernels are evaluated on the full theta range. Their
+      // poloidal projection must cover that range, so fold about
+      // theta -> -theta into the reduced-range parts the reduced-range weights
+      // expect (sin-observation <- antisymmetric fold, cos-observation <-
+      // symmetric fold; actemp transforms even under the reflection, astemp
+      // odd).
+      Eigen::VectorXd sac_co(s_.nThetaReduced), sas_co(s_.nThetaReduced);
+      if (s_.lasym) {
+        for (int l = 0; l < s_.nThetaReduced; ++l) {
+          const int rl = (s_.nThetaEven - l) % s_.nThetaEven;
+          const double sa = actemp[base_idx + l];
+          const double sar = actemp[base_idx + rl];
+          const double sb = astemp[base_idx + l];
+          const double sbr = astemp[base_idx + rl];
+          actemp_l[l] = 0.5 * (sa - sar);
+          astemp_l[l] = 0.5 * (sb + sbr);
+          sac_co[l] = 0.5 * (sa + sar);
+          sas_co[l] = 0.5 * (sb - sbr);
+        }
+      }
+
       Eigen::VectorXd result_ss = sinmui_scaled.transpose() * actemp_l -
                                   cosmui_scaled.transpose() * astemp_l;
 
@@ -438,19 +459,14 @@ void LaplaceSolver::PerformPoloidalFourierTransforms() {
       }
 
       if (s_.lasym) {
-        Eigen::VectorXd result_sc = cosmui_scaled.transpose() * actemp_l +
-                                    sinmui_scaled.transpose() * astemp_l;
+        Eigen::VectorXd result_sc = cosmui_scaled.transpose() * sac_co +
+                                    sinmui_scaled.transpose() * sas_co;
         for (int m = 0; m < mf + 1; ++m) {
           const int idx_amat = (all_n * (mf + 1) + m) * mnpd + mn;
           amat_sin_cos[idx_amat] = result_sc[m];
         }
 
-        // The cos-source kernel grpmn_cos is evaluated on the full theta range.
-        // Its poloidal projection must cover that range, so fold actemp_cos /
-        // astemp_cos about theta -> -theta into the reduced-range parts the
-        // reduced-range weights expect (sin-observation <- antisymmetric fold,
-        // cos-observation <- symmetric fold; actemp transforms even under the
-        // reflection, astemp odd).
+        // the same folds of the cos-source kernel
         Eigen::VectorXd cac_so(s_.nThetaReduced), cas_so(s_.nThetaReduced);
         Eigen::VectorXd cac_co(s_.nThetaReduced), cas_co(s_.nThetaReduced);
         for (int l = 0; l < s_.nThetaReduced; ++l) {
-- 
2.43.0

