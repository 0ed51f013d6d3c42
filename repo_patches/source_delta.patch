From c2490ddeacff6f030527cba8603d22c9aef8cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 01/12] fix: shallow water momentum flux transports with the
 velocity, not with the momentum

---
 src/equations/ShallowWater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/ShallowWater.cpp b/src/equations/ShallowWater.cpp
index c643179..c5eeb14 100644
--- a/src/equations/ShallowWater.cpp
+++ b/src/equations/ShallowWater.cpp
@@ -26,7 +26,7 @@ namespace fub {
 void ShallowWater::Flux(Conservative& flux, const Complete& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const double velocity = state.momentum[d];
+  const double velocity = state.momentum[d] / state.height;
   flux.height = state.momentum[d];
   flux.momentum[0] = velocity * state.momentum[0];
   flux.momentum[1] = velocity * state.momentum[1];
@@ -36,7 +36,7 @@ void ShallowWater::Flux(Conservative& flux, const Complete& state,
 void ShallowWater::Flux(ConservativeArray& flux, const CompleteArray& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const Array1d velocity = state.momentum.row(d);
+  const Array1d velocity = state.momentum.row(d) / state.height;
   flux.height = state.momentum.row(d);
   flux.momentum.row(0) = velocity * state.momentum.row(0);
   flux.momentum.row(1) = velocity * state.momentum.row(1);
-- 
2.43.0


From 1330da8638f911e0013199593d6f54600c82db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 02/12] fix: NewtonIteration reports every iteration that did
 not converge

---
 include/fub/NewtonIteration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/NewtonIteration.hpp b/include/fub/NewtonIteration.hpp
index f45814b..d0e52b0 100644
--- a/include/fub/NewtonIteration.hpp
+++ b/include/fub/NewtonIteration.hpp
@@ -41,7 +41,7 @@ double NewtonIteration(Function&& f, Derivative&& Df, double x0,
     err = std::abs(fx);
     counter += 1;
   }
-  if (counter == max_iterations && fx > tolerance) {
+  if (err > tolerance) {
     std::ostringstream out;
     out << "Newton Iteration did not converge. (x0 = " << x0 << ", x = " << x
         << ", fx = " << fx << ", counter = " << counter << ", err = " << err
-- 
2.43.0


From 34e410621be5648f7d45b6e3044f89a3ced0da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 03/12] fix: sequential stable time step considers the last
 face of a patch

---
 include/fub/flux_method/FluxMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index 52e2848..e8a6af8 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -298,7 +298,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SequentialTag,
                                         const View<const Complete>& states,
                                         double dx, Direction dir) {
   double min_dt = std::numeric_limits<double>::infinity();
-  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize()}),
+  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize() - 1}),
                [&](const auto... is) {
                  using Index = std::array<std::ptrdiff_t, sizeof...(is)>;
                  const Index face{is...};
-- 
2.43.0


From eea901b3b025098b63f0d5f0ab84760354482c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 04/12] fix: upwind with the right state in the sequential
 HLLEM flux

For a negative mass flux the Larrouturou version transported the negative of
the right state, the array version upwinds without the sign.
---
 src/equations/perfect_gas/HllemMethod.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 59d8ae6..ff374cc 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -490,7 +490,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -514,7 +514,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -545,9 +545,9 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
                     f_hllem_rhoE;
@@ -572,7 +572,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -596,7 +596,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -629,11 +629,11 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhow =
-          f_rho * (upwind * vL_[iz] - (1 - upwind) * vR_[iz]);
+          f_rho * (upwind * vL_[iz] + (1 - upwind) * vR_[iz]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.momentum[iz] = f_hllem_rhow;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
@@ -665,7 +665,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -689,7 +689,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
-- 
2.43.0


From 9c46a047474655de0d4d877346c86f0ee62b37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 05/12] fix: set density and normal momentum in the sequential
 3d HLLEM flux

---
 src/equations/perfect_gas/HllemMethod.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index ff374cc..75a9bb0 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -625,6 +625,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                            l25 * deltaRhoE;
     const double b_delta = b * delta;
     const double b_delta_alpha_2 = b_delta * alpha_2;
+    flux.density = flux_hlle_.density - b_delta_alpha_2;
+    flux.momentum[ix] = flux_hlle_.momentum[ix] - b_delta_alpha_2 * roeU[ix];
     if constexpr (Larrouturou) {
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
-- 
2.43.0


From 6439dc88bf374d91d1586afb3f6b26de47ec8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 06/12] fix: use the normal Roe velocity for the contact wave
 in the 3d HLLEM array flux

---
 src/equations/perfect_gas/HllemMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 75a9bb0..0019a69 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -991,7 +991,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const Array1d b_delta_alpha_2 = b_delta * alpha_2;
     flux.density = flux_hlle_array_.density - b_delta_alpha_2;
     flux.momentum.row(ix) =
-        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(iy);
+        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(ix);
 
     if constexpr (Larrouturou) {
       const MaskArray upwind = (flux.density > 0.0);
-- 
2.43.0


From 849cda346aa0c0efeac1a997984c8b8a4f1f29fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 07/12] fix: scale all velocity components of the HLLEM contact
 and shear waves with the Mach number

---
 src/equations/perfect_gas/HllemMethod.hpp | 32 ++++++++++++-----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 0019a69..50dc5f3 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -184,7 +184,7 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
     const int iy = (ix + 1) % 2;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
     const double l24 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoE;
@@ -211,7 +211,7 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
                               u_bar_delta_alpha_3 * 1.0;
       w_hllem_.energy = w_hlle_.energy -
                         u_bar_delta_alpha_2 * squaredNormRoeU_half -
-                        u_bar_delta_alpha_3 * roeU[iy];
+                        u_bar_delta_alpha_3 * Msq * roeU[iy];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -267,8 +267,8 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
     const int iz = (iy + 1) % 3;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
-    const double l24 = gm1 / roeA2 * roeU[2];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
+    const double l24 = gm1 / roeA2 * Msq * roeU[2];
     const double l25 = gm1 / roeA2 * (-1.0);
     const double l31 = -roeU[iy];
     // const double l32 = 0;
@@ -307,7 +307,7 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
           u_bar_delta * (alpha_2 * roeU[iz] + alpha_4 * 1.0);
       w_hllem_.energy = w_hlle_.energy -
                         u_bar_delta * (alpha_2 * squaredNormRoeU_half +
-                                       alpha_3 * roeU[iy] + alpha_4 * roeU[iz]);
+                                       Msq * (alpha_3 * roeU[iy] + alpha_4 * roeU[iz]));
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -533,7 +533,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iy = (ix + 1) % 2;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
     const double l24 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoE;
@@ -559,7 +559,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       flux.momentum[iy] = flux_hlle_.momentum[iy] - b_delta_alpha_2 * roeU[iy] -
                           b_delta_alpha_3 * 1.0;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU[iy];
+                    b_delta_alpha_3 * Msq * roeU[iy];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -617,8 +617,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iz = (iy + 1) % 3;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
-    const double l24 = gm1 / roeA2 * roeU[2];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
+    const double l24 = gm1 / roeA2 * Msq * roeU[2];
     const double l25 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoU[2] +
@@ -654,7 +654,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       flux.momentum[iz] = flux_hlle_.momentum[iz] - b_delta_alpha_2 * roeU[iz] -
                           b_delta_alpha_4;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU[iy] - b_delta_alpha_4 * roeU[iz];
+                    b_delta_alpha_3 * Msq * roeU[iy] -
+                    b_delta_alpha_4 * Msq * roeU[iz];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -896,7 +897,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iy = (ix == 0);
     const Array1d l21 = gm1_over_roeA2 * (roeH - squaredNormRoeU);
     const Array1d l22 = gm1_over_roeA2 * Msq * roeU.row(0);
-    const Array1d l23 = gm1_over_roeA2 * roeU.row(1);
+    const Array1d l23 = gm1_over_roeA2 * Msq * roeU.row(1);
     const Array1d l24 = -gm1_over_roeA2;
     const Array1d alpha_2 = l21 * deltaRho + l22 * deltaRhoU.row(0) +
                             l23 * deltaRhoU.row(1) + l24 * deltaRhoE;
@@ -921,7 +922,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                               b_delta_alpha_2 * roeU.row(iy) - b_delta_alpha_3;
       flux.energy = flux_hlle_array_.energy -
                     b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU.row(iy);
+                    b_delta_alpha_3 * Msq * roeU.row(iy);
     }
     if constexpr (euler::state_with_species<Conservative>()) {
       const int n_species = flux.species.rows();
@@ -980,8 +981,8 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iz = (iy + 1) % 3;
     const Array1d l21 = gm1_over_roeA2 * (roeH - squaredNormRoeU);
     const Array1d l22 = gm1_over_roeA2 * Msq * roeU.row(0);
-    const Array1d l23 = gm1_over_roeA2 * roeU.row(1);
-    const Array1d l24 = gm1_over_roeA2 * roeU.row(2);
+    const Array1d l23 = gm1_over_roeA2 * Msq * roeU.row(1);
+    const Array1d l24 = gm1_over_roeA2 * Msq * roeU.row(2);
     const Array1d l25 = -gm1_over_roeA2;
 
     const Array1d alpha_2 = l21 * deltaRho + l22 * deltaRhoU.row(0) +
@@ -1017,7 +1018,8 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                               b_delta_alpha_2 * roeU.row(iz) - b_delta_alpha_4;
       flux.energy =
           flux_hlle_array_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-          b_delta_alpha_3 * roeU.row(iy) - b_delta_alpha_4 * roeU.row(iz);
+          b_delta_alpha_3 * Msq * roeU.row(iy) -
+          b_delta_alpha_4 * Msq * roeU.row(iz);
     }
 
     if constexpr (euler::state_with_species<Conservative>()) {
-- 
2.43.0


From 10bf101001bf491cd4105f36261843503d5a9b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 08/12] fix: supersonic HLLEM Riemann solution keeps the
 transverse momentum

The Larrouturou version returned its working copy, from which the transverse
momentum and kinetic energy have been removed.
---
 src/equations/perfect_gas/HllemMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 50dc5f3..69eee44 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -359,9 +359,9 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
   }
 
   if (0.0 < sL) {
-    solution = left_;
+    solution = left;
   } else if (sR < 0.0) {
-    solution = right_;
+    solution = right;
   } else {
     AsCons(solution) = w_hllem_;
     CompleteFromCons(equation_, solution, solution);
-- 
2.43.0


From 6f944e6e8f816c2e8273ccfb2eaad32db3206e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 09/12] fix: HLLEM Riemann solution evaluates the linear
 profile at the face

The antidiffusive part missed the factor 2 / (bR - bL), which the HLLEM flux
implies and without which the terms of the sum differ in their dimensions.
---
 src/equations/perfect_gas/HllemMethod.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 69eee44..43de3e1 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -115,7 +115,8 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
   const double squaredNormRoeU_half = 0.5 * squaredNormRoeU;
   const double u_bar = 0.5 * (sR + sL);
   const double u_bar_abs = std::abs(u_bar);
-  const double delta = roeA / (roeA + u_bar_abs);
+  // slope of the linear profile between the signals bL and bR
+  const double delta = 2.0 / db_positive * roeA / (roeA + u_bar_abs);
 
   const double deltaRho = rhoR - rhoL;
   const Array<double, 1, Dim> deltaRhoU = right_.momentum - left_.momentum;
-- 
2.43.0


From 1c24d1a29ce515ab51f907b9577c2d094403f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 10/12] fix: SIMD stable time step initialises the whole
 remainder mask

---
 include/fub/flux_method/FluxMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index e8a6af8..51ab877 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -371,7 +371,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SimdTag,
       LoadN(stencil_array_[i], states[i], n);
     }
     Array1d mask_;
-    for (int i = 0; i < mask_.rows(); ++i) {
+    for (int i = 0; i < mask_.size(); ++i) {
       mask_[i] = static_cast<double>(i);
     }
     auto mask = (mask_ < n).eval();
-- 
2.43.0


From 4c187737e6849953e93825161c434681890553d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:14 +0000
Subject: [PATCH 11/12] fix: half time step reconstruction ignores the
 reference Mach number

---
 include/fub/flux_method/Reconstruct.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/fub/flux_method/Reconstruct.hpp b/include/fub/flux_method/Reconstruct.hpp
index 1860847..873e6af 100644
--- a/include/fub/flux_method/Reconstruct.hpp
+++ b/include/fub/flux_method/Reconstruct.hpp
@@ -231,6 +231,7 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   const double a = q0.speed_of_sound;
   const double a2 = a * a;
   const double rho_a2 = rho * a2;
+  const double rho_Ma2 = rho * euler::MaSq(equation_);
   w_rec_.density =
       w_.density +
       dx_half * (dw_dx.density -
@@ -242,7 +243,7 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   w_rec_.velocity[ix] =
       w_.velocity[ix] +
       dx_half * (dw_dx.velocity[ix] -
-                 lambda * (u * dw_dx.velocity[ix] + dw_dx.pressure / rho));
+                 lambda * (u * dw_dx.velocity[ix] + dw_dx.pressure / rho_Ma2));
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
@@ -365,6 +366,7 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   const Array1d a = q0.speed_of_sound;
   const Array1d a2 = a * a;
   const Array1d rho_a2 = rho * a2;
+  const Array1d rho_Ma2 = rho * euler::MaSq(equation_);
   w_rec_array_.density =
       w_array_.density +
       dx_half * (dw_dx.density -
@@ -376,7 +378,8 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   w_rec_array_.velocity.row(ix) =
       w_array_.velocity.row(ix) +
       dx_half * (dw_dx.velocity.row(ix) -
-                 lambda * (u * dw_dx.velocity.row(ix) + dw_dx.pressure / rho));
+                 lambda * (u * dw_dx.velocity.row(ix) +
+                           dw_dx.pressure / rho_Ma2));
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
@@ -408,7 +411,7 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
     Complete& reconstruction, const Complete& q0, const Characteristics& dKdx,
     Duration dt, double dx, Direction dir, Side side) noexcept {
   PrimFromComplete(equation_, w_rec_, q0);
-  const double Minv = 1.0 / euler::MaSq(equation_);
+  const double Minv = 1.0 / std::sqrt(euler::MaSq(equation_));
   const int ix = static_cast<int>(dir);
   const double u = w_rec_.velocity[ix];
   const double c = q0.speed_of_sound;
@@ -468,10 +471,11 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
   const int sign = (side == Side::Upper) - (side == Side::Lower);
   const Array1d lambda = Array1d::Constant(sign * dt.count() / dx);
   const Array1d dx_half = Array1d::Constant(sign * 0.5 * dx);
+  const double Minv = 1.0 / std::sqrt(euler::MaSq(equation_));
   dKdt_array_.minus =
-      dx_half * dKdx.minus * (Array1d::Constant(1.0) - lambda * (u - c));
+      dx_half * dKdx.minus * (Array1d::Constant(1.0) - lambda * (u - c * Minv));
   dKdt_array_.plus =
-      dx_half * dKdx.plus * (Array1d::Constant(1.0) - lambda * (u + c));
+      dx_half * dKdx.plus * (Array1d::Constant(1.0) - lambda * (u + c * Minv));
   for (int i = 0; i < dKdt_array_.zero.rows(); ++i) {
     dKdt_array_.zero.row(i) =
         dx_half * dKdx.zero.row(i) * (Array1d::Constant(1.0) - lambda * u);
@@ -495,7 +499,7 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
   dwdt_array_.pressure = 0.5 * (dKdt_array_.minus + dKdt_array_.plus);
   dwdt_array_.density = dwdt_array_.pressure / c2 + dKdt_array_.zero.row(0);
   dwdt_array_.velocity.row(ix) =
-      0.5 * (dKdt_array_.plus - dKdt_array_.minus) / rhoc;
+      0.5 * (dKdt_array_.plus - dKdt_array_.minus) * Minv / rhoc;
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
-- 
2.43.0


From 5260b03a2ce7665ed882a7bb2e629e1b4097a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:30 +0000
Subject: [PATCH 12/12] fix: keep the points that ReadPointsFromFile has read
 when it trims the matrix

Eigen's resize discards the coefficients if the size changes, which it does
whenever the file contains lines without a point.
---
 src/geometry/ExpandTube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/ExpandTube.cpp b/src/geometry/ExpandTube.cpp
index a27ee6d..f6df9f3 100644
--- a/src/geometry/ExpandTube.cpp
+++ b/src/geometry/ExpandTube.cpp
@@ -130,7 +130,7 @@ ReadPointsFromFile(const std::string& filename) {
       ++col;
     }
   }
-  points.resize(3, col);
+  points.conservativeResize(3, col);
   return points;
 }
 
-- 
2.43.0

