From bf0990b8328a9ace99a7c43e0da28a1322b9a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 01/36] fix: cohesive Jacobian is the derivative of the
 cohesive traction for any characteristic displacement

---
 source/constitutive_laws.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 77f2c60..eb1a78d 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -1306,6 +1306,7 @@ CohesiveLaw<dim>::get_jacobian(
       effective_opening_displacement_rate >= 0.0)
   {
     jacobian =
+      characteristic_displacement *
       critical_cohesive_traction /
       critical_opening_displacement *
       std::exp(1.0 - characteristic_displacement *
@@ -1331,7 +1332,6 @@ CohesiveLaw<dim>::get_jacobian(
       get_effective_cohesive_traction(
         characteristic_displacement*
         max_effective_opening_displacement) /
-      characteristic_displacement /
       max_effective_opening_displacement *
       effective_quantities.identity_tensor;
   }
-- 
2.43.0


From c9a4b7e1261f06520fd778be10439c45bd714b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 02/36] fix: contact Jacobian is the derivative of the contact
 traction for any characteristic displacement

---
 source/constitutive_laws.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index eb1a78d..72afa56 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -1542,6 +1542,7 @@ ContactLaw<dim>::get_jacobian(
   jacobian =
     penalty_coefficient /
     characteristic_stress *
+    characteristic_displacement *
     macaulay_brackets(-normal_opening_displacement /
                       std::abs(normal_opening_displacement)) *
     dealii::symmetrize(dealii::outer_product(normal_vector,
-- 
2.43.0


From ee508b25fdef4f2e685f889695b0c46f116ec053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 03/36] fix: derivative of the inactive degradation function is
 zero

---
 include/gCP/constitutive_laws.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gCP/constitutive_laws.h b/include/gCP/constitutive_laws.h
index 1058955..dfc5dc1 100644
--- a/include/gCP/constitutive_laws.h
+++ b/include/gCP/constitutive_laws.h
@@ -575,7 +575,7 @@ DegradationFunction::get_degradation_function_derivative_value(
   }
   else
   {
-    return 1.0;
+    return 0.0;
   }
 }
 
-- 
2.43.0


From be5a60ff820f4d9fdd7e9f8efa9fa98cc601698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 04/36] fix: interface damage does not heal below the endurance
 limit

---
 source/gradient_crystal_plasticity/quadrature_point_history.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index e80c5f6..4cfafda 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -170,7 +170,7 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
                       old_effective_opening_displacement) *
     std::pow(1.0 - damage_variable + damage_decay_constant,
      damage_decay_exponent) *
-    (thermodynamic_force - endurance_limit);
+    macaulay_brackets(thermodynamic_force - endurance_limit);
 
   if (damage_variable > 1.0)
     damage_variable = 1.0;
-- 
2.43.0


From edfebfe6f2b8e9c851fb2776075407c768983124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 05/36] fix: stored effective opening displacement ignores
 interface compression

---
 .../quadrature_point_history.cc                           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index 4cfafda..2fcc1bf 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -185,8 +185,8 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector)
 {
   /*if (flag_values_were_updated)
@@ -206,7 +206,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
@@ -227,8 +227,8 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector,
   const double                effective_cohesive_traction)
 {
@@ -249,7 +249,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
-- 
2.43.0


From c74a18784bea700ce97f4104b962c9935575c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 06/36] fix: reject input lines with more entries than spatial
 dimensions in release builds

---
 source/crystal_data.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/crystal_data.cc b/source/crystal_data.cc
index 9a382eb..b49901f 100644
--- a/source/crystal_data.cc
+++ b/source/crystal_data.cc
@@ -114,7 +114,11 @@ void CrystalsData<dim>::read_and_store_data(
                             vector_component,
                             ','))
         {
-          AssertIndexRange(component, dim);
+          AssertThrow(
+            component < dim,
+            dealii::ExcMessage(
+              "A line of the specified file has more entries than the "
+              "number of spatial dimensions."));
 
           vector[component++] = std::stod(vector_component);
         }
-- 
2.43.0


From 07baad4a228e184177b8df72b4b1c95d8ad61d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 07/36] fix: reject slip systems with a zero-length direction
 or normal

---
 source/crystal_data.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/crystal_data.cc b/source/crystal_data.cc
index b49901f..d3a4c0d 100644
--- a/source/crystal_data.cc
+++ b/source/crystal_data.cc
@@ -216,6 +216,13 @@ void CrystalsData<dim>::read_and_store_data(
   // completing the orthonormal basis
   for (unsigned int i = 0; i < reference_slip_normals.size(); ++i)
   {
+    AssertThrow(reference_slip_normals[i].norm() > 0.0 &&
+                reference_slip_directions[i].norm() > 0.0,
+                dealii::ExcMessage("The slip normal or the slip "
+                                   "direction of the " +
+                                   std::to_string(i) + "-th slip "
+                                   "system has zero length." ));
+
     AssertThrow(orthogonality_check(reference_slip_normals[i],
                                     reference_slip_directions[i]),
                 dealii::ExcMessage("The slip normal and the slip "
-- 
2.43.0


From c0a33696d939001abb76007c0daf06f328e5bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 08/36] fix: line-search step length stays defined when the
 cubic interpolant degenerates

---
 source/line_search.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/line_search.cc b/source/line_search.cc
index 98221e4..773ffcc 100644
--- a/source/line_search.cc
+++ b/source/line_search.cc
@@ -150,10 +150,17 @@ double LineSearch::cubic_backtracking()
 
   coefficients *= factor;
 
-  double lambda = (-coefficients[1] +
-                  std::sqrt(coefficients[1]*coefficients[1] -
-                            3.0 * coefficients[0] *descent_direction)) /
-                  (3. * coefficients[0]);
+  const double discriminant = coefficients[1]*coefficients[1] -
+                              3.0 * coefficients[0] *descent_direction;
+
+  // The cubic interpolant has no minimizer
+  if (discriminant < 0.0)
+    return 0.5*old_lambda;
+
+  // Minimizer of the cubic interpolant, written such that it remains
+  // defined if the interpolant degenerates to a parabola
+  const double lambda = - descent_direction /
+                        (coefficients[1] + std::sqrt(discriminant));
 
   if (lambda < 0.1*old_lambda)
     return 0.1*old_lambda;
-- 
2.43.0


From 5988bc82b15f7c0ebfcd9ac1ad50132c872c0aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 09/36] fix: line search on one block restarts from that
 block's stored trial solution

---
 source/gradient_crystal_plasticity/solve.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index ae477d7..dd69836 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -1622,7 +1622,7 @@ line_search_algorithm(
       line_search->get_lambda(objective_function_value,
                               relaxation_parameter);
 
-    reset_trial_solution();
+    reset_trial_solution(false, block_index);
 
     update_trial_solution(relaxation_parameter, block_index);
 
-- 
2.43.0


From 9edbd9f188ff4cc2f5139c59cd90a5420e77528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 10/36] fix: start the interface damage integral at zero

---
 source/gradient_crystal_plasticity/assembly.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 7c67d82..32eaabd 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -2016,7 +2016,7 @@ double GradientCrystalPlasticitySolver<dim>::get_macroscopic_damage()
   // at the quadrature points
   std::vector<double> JxW_values(n_face_quadrature_points);
 
-  double              domain_integral_damage_variable;
+  double              domain_integral_damage_variable = 0.;
 
   double              cell_integral_damage_variable;
 
-- 
2.43.0


From 2d801fa86f0c12978150fc23f46a99c6fbfb5b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 11/36] fix: refresh internal variables after constraints
 change the trial solution

---
 source/gradient_crystal_plasticity/solve.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index dd69836..6d2dfec 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -207,6 +207,10 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
     distribute_affine_constraints_to_trial_solution();
 
+    // The active set and the constraints may have changed the trial
+    // solution
+    reset_and_update_internal_variables();
+
     // Assemble linear system
     assemble_linear_system();
 
-- 
2.43.0


From f73bfdbe012dc2cd19eed27ea44dcb74f5c7bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 12/36] fix: bouncing algorithm starts from a trial solution
 satisfying the constraints

---
 source/gradient_crystal_plasticity/solve.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 6d2dfec..bbccb39 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -386,6 +386,9 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
         linear_momentum_solver_parameters.
           line_search_parameters);
 
+  // Distribute constraints to the (extrapolated) solution
+  distribute_affine_constraints_to_trial_solution();
+
   // Macro-Newton-Raphson loop
   do
   {
-- 
2.43.0


From e215143a9605cb87273720164aa8fa1d4d0f5677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 13/36] fix: all processes agree on restarting after an active
 set change

---
 source/gradient_crystal_plasticity/solve.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index bbccb39..896266b 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -298,7 +298,10 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
         active_set_algorithm(flag_compute_active_set);
 
-        if (original_active_set != locally_owned_active_set)
+        // All processes have to agree on whether the loop is restarted
+        if (dealii::Utilities::MPI::max(
+              (original_active_set != locally_owned_active_set) ? 1u : 0u,
+              MPI_COMM_WORLD) != 0)
         {
           flag_successful_convergence = false;
 
-- 
2.43.0


From 68a2c91e9d269d39d6fdc7611168dc7f3c4fbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 14/36] fix: damage driving force is evaluated at the stored
 damage

---
 source/gradient_crystal_plasticity/assembly.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 32eaabd..1a88972 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1496,6 +1496,11 @@ update_local_quadrature_point_history(
 
           case RunTimeParameters::DamageEvolutionModel::M1:
             {
+              // The force is the one at the stored damage, not the one
+              // left behind by the last update
+              local_interface_quadrature_point_history[face_q_point]->
+                reset_values();
+
               scratch.thermodynamic_force_values[face_q_point] =
                 - degradation_function->
                     get_degradation_function_derivative_value(
-- 
2.43.0


From e032409bb362f71b9f1c1b87ef8fdc346625239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 15/36] fix: each interface history is updated by one cell's
 worker only

---
 source/gradient_crystal_plasticity/assembly.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 1a88972..7ee15c1 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1412,7 +1412,10 @@ update_local_quadrature_point_history(
     {
       if (!cell->face(face_index)->at_boundary() &&
           cell->material_id() !=
-            cell->neighbor(face_index)->material_id())
+            cell->neighbor(face_index)->material_id() &&
+          // The history is shared by both cells, one of them updates it
+          !(cell->neighbor(face_index)->is_locally_owned() &&
+            cell->neighbor(face_index)->id() < cell->id()))
       {
         // Get the crystal identifier for the neighbor cell
         const unsigned int neighbor_crystal_id =
@@ -1619,7 +1622,10 @@ store_local_effective_opening_displacement(
     for (const auto &face_index : cell->face_indices())
       if (!cell->face(face_index)->at_boundary() &&
           cell->material_id() !=
-            cell->neighbor(face_index)->material_id())
+            cell->neighbor(face_index)->material_id() &&
+          // The history is shared by both cells, one of them updates it
+          !(cell->neighbor(face_index)->is_locally_owned() &&
+            cell->neighbor(face_index)->id() < cell->id()))
       {
         // Get the crystal identifier for the neighbor cell
         const unsigned int neighbor_crystal_id =
-- 
2.43.0


From feeaecba99957320aa00bcf04863177f8d1f4c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 16/36] fix: round-off does not reject valid three-dimensional
 interaction moduli

---
 source/constitutive_laws.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 72afa56..286290b 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -937,14 +937,14 @@ MicrotractionLaw<3>::get_grain_interaction_moduli(
 
         AssertThrow(
           std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
 
         AssertThrow(
           std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
-- 
2.43.0


From 5f24e317d3bb2634dfaacd936cee3448dbc5fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 17/36] fix: stored cohesive traction uses the same previous
 opening as the residual

---
 source/gradient_crystal_plasticity/assembly.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 7ee15c1..553a792 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1693,8 +1693,8 @@ store_local_effective_opening_displacement(
               scratch.normal_vector_values[face_q_point],
               local_interface_quadrature_point_history[face_q_point]->
                 get_max_effective_opening_displacement(),
-              (scratch.neighbor_cell_old_displacement_values[face_q_point] -
-               scratch.current_cell_old_displacement_values[face_q_point]).norm(),
+              local_interface_quadrature_point_history[face_q_point]->
+                get_old_effective_opening_displacement(),
               discrete_time.get_next_step_size());
 
           local_interface_quadrature_point_history[face_q_point]->store_effective_opening_displacement(
-- 
2.43.0


From 50efbf362f23f8bdaaf97af90ab9a8b9d0b9f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 18/36] fix: nodal slip resistances of inactive slip systems
 harden latently

---
 source/gradient_crystal_plasticity/setup.cc | 31 ++++++++++-----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/source/gradient_crystal_plasticity/setup.cc b/source/gradient_crystal_plasticity/setup.cc
index c7d4733..e3ce42b 100644
--- a/source/gradient_crystal_plasticity/setup.cc
+++ b/source/gradient_crystal_plasticity/setup.cc
@@ -645,27 +645,24 @@ reset_and_update_slip_resistances()
   for (const auto locally_owned_inelastic_dof :
         fe_field->get_locally_owned_plastic_slip_dofs())
   {
-    if (locally_owned_active_set.is_element(
-          locally_owned_inelastic_dof))
-    {
-      const std::vector<dealii::types::global_dof_index> dofs =
-        dof_to_info[locally_owned_inelastic_dof].first;
-
-      const unsigned int current_slip_id =
-        dof_to_info[locally_owned_inelastic_dof].second;
+    // Inactive slip systems harden as well (latent hardening)
+    const std::vector<dealii::types::global_dof_index> dofs =
+      dof_to_info[locally_owned_inelastic_dof].first;
 
-      double hardening = 0.0;
+    const unsigned int current_slip_id =
+      dof_to_info[locally_owned_inelastic_dof].second;
 
-      for (unsigned int slip_id = 0; slip_id < fe_field->get_n_slips();
-            slip_id++)
-      {
-        hardening += get_hardening_modulus(current_slip_id == slip_id) *
-          std::abs(trial_solution(dofs[slip_id]) -
-            fe_field->old_solution(dofs[slip_id]));
-      }
+    double hardening = 0.0;
 
-      slip_resistance(locally_owned_inelastic_dof) += hardening;
+    for (unsigned int slip_id = 0; slip_id < fe_field->get_n_slips();
+          slip_id++)
+    {
+      hardening += get_hardening_modulus(current_slip_id == slip_id) *
+        std::abs(trial_solution(dofs[slip_id]) -
+          fe_field->old_solution(dofs[slip_id]));
     }
+
+    slip_resistance(locally_owned_inelastic_dof) += hardening;
   }
 }
 
-- 
2.43.0


From 8a09da44f8a2afafae067ea26a22f58d333913a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 19/36] fix: load step column of the solver statistics is
 filled

---
 source/gradient_crystal_plasticity/solve.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 896266b..03bc5b3 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -94,6 +94,11 @@ solve_nonlinear_system(const bool flag_skip_extrapolation)
     " with dt = " +
     std::to_string(discrete_time.get_next_step_size()));
 
+  // Every declared column of the statistics' table gets one value per
+  // load step
+  table_handler.add_value(
+    "LoadStep", discrete_time.get_step_number() + 1);
+
   // Internal variables' values at the previous step are stored
   prepare_quadrature_point_history();
 
-- 
2.43.0


From d26fa96e5d4417005cea69a3846b47353ec66d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 20/36] fix: set the time of the Neumann functions once, before
 the threaded assembly

assemble_local_residual is executed concurrently. Altering the functions,
which all threads share, from within it is a data race.
---
 source/gradient_crystal_plasticity/assembly.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 553a792..b243c4c 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -638,6 +638,12 @@ double GradientCrystalPlasticitySolver<dim>::assemble_residual()
   // Reset data
   residual = 0.0;
 
+  // The tractions prescribed at the end of the load step. The functions
+  // are shared by the threads, i.e., they must not be altered by them
+  for (const auto &neumann_boundary_condition : neumann_boundary_conditions)
+    neumann_boundary_condition.second->set_time(
+      discrete_time.get_next_time());
+
   // Set up the lambda function for the local assembly operation
   auto worker = [this](
     const CellIterator                         &cell,
@@ -1113,9 +1119,6 @@ void GradientCrystalPlasticitySolver<dim>::assemble_local_residual(
 
         // Compute the Neumann boundary function values at the
         // quadrature points
-        neumann_boundary_conditions.at(face->boundary_id())->set_time(
-          discrete_time.get_next_time());
-
         neumann_boundary_conditions.at(face->boundary_id())->value_list(
           fe_face_values.get_quadrature_points(),
           scratch.neumann_boundary_values);
-- 
2.43.0


From 70a7db5eb90067c213c886d6d6eaf2dc5af13705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 21/36] fix: constrain inactive plastic slips once the active
 set is complete

A degree of freedom at a periodic boundary visited before its active partner
was constrained, which also froze the partner it is identified with.
---
 .../gradient_crystal_plasticity/active_set.cc | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/source/gradient_crystal_plasticity/active_set.cc b/source/gradient_crystal_plasticity/active_set.cc
index 4557cf9..ee0daae 100644
--- a/source/gradient_crystal_plasticity/active_set.cc
+++ b/source/gradient_crystal_plasticity/active_set.cc
@@ -111,7 +111,36 @@ void GradientCrystalPlasticitySolver<dim>::determine_active_set()
           locally_owned_active_set.add_index((*constraint_entries)[0].first);
         }
       }
+    }
+
+    // Likewise if it is the other degree of freedom of the periodic pair
+    // which leads to plastic flow
+    for (const auto &locally_owned_dof :
+          fe_field->get_locally_owned_plastic_slip_dofs())
+    {
+      if (fe_field->get_affine_constraints().is_identity_constrained(
+            locally_owned_dof))
+      {
+        const std::vector<
+          std::pair<dealii::types::global_dof_index, double>>
+            *constraint_entries =
+              fe_field->get_affine_constraints().
+                get_constraint_entries(locally_owned_dof);
+
+        if (locally_owned_active_set.is_element(
+              (*constraint_entries)[0].first))
+        {
+          locally_owned_active_set.add_index(locally_owned_dof);
+        }
+      }
+    }
 
+    // The remaining degrees of freedom can only be constrained once the
+    // active set is complete, as both degrees of freedom of a periodic
+    // pair can be visited first
+    for (const auto &locally_owned_dof :
+          fe_field->get_locally_owned_plastic_slip_dofs())
+    {
       if (!locally_owned_active_set.is_element(locally_owned_dof))
       {
         inactive_set_affine_constraints.add_line(locally_owned_dof);
-- 
2.43.0


From e7b8ea4132dc82ff8aa1ade61f516583013c36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:25 +0000
Subject: [PATCH 22/36] fix: apply the configured loading type in
 DisplacementControl

The loading type was hard-coded to monotonic, a cyclic load of the
parameter file was applied as an ever growing ramp.
---
 source/boundary_conditions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index aeaf6b4..f1afa23 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -25,7 +25,7 @@ DisplacementControl<dim>::DisplacementControl(
 dealii::Function<dim>(n_components, parameters.start_time),
 n_crystals(n_crystals),
 strip_height(strip_height),
-loading_type(RunTimeParameters::LoadingType::Monotonic),
+loading_type(parameters.loading_type),
 max_strain_load(parameters.max_load),
 min_strain_load(parameters.min_load),
 component(component),
-- 
2.43.0


From 3d225ed2edecd8eb7acc49865f78f040fec53352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:05 +0000
Subject: [PATCH 23/36] fix: scale the cyclic displacement load with the strip
 height and the phase durations

The cyclic and the unloading phase prescribed a strain instead of a
displacement, and the loading and unloading phases only reached the mean
load when they lasted exactly one unit of time.
---
 include/gCP/boundary_conditions.h |  2 ++
 source/boundary_conditions.cc     | 23 ++++++++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/gCP/boundary_conditions.h b/include/gCP/boundary_conditions.h
index 23db833..dc53744 100644
--- a/include/gCP/boundary_conditions.h
+++ b/include/gCP/boundary_conditions.h
@@ -53,6 +53,8 @@ private:
 
   const unsigned int                    component;
 
+  const double                          duration_of_loading_and_unloading_phase;
+
   const double                          period;
 
   const double                          start_of_cyclic_phase;
diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index f1afa23..88acd52 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -29,6 +29,8 @@ loading_type(parameters.loading_type),
 max_strain_load(parameters.max_load),
 min_strain_load(parameters.min_load),
 component(component),
+duration_of_loading_and_unloading_phase(
+  parameters.duration_loading_and_unloading_phase),
 period(parameters.period),
 start_of_cyclic_phase(parameters.start_of_cyclic_phase),
 start_of_unloading(parameters.start_of_unloading_phase),
@@ -72,19 +74,26 @@ void DisplacementControl<dim>::vector_value(
 
         if (time < start_of_cyclic_phase)
         {
-          displacement_load = time * strip_height * offset;
+          displacement_load =
+            strip_height * offset *
+            (1.0 + (time - start_of_cyclic_phase) /
+                   duration_of_loading_and_unloading_phase);
         }
         else if (time < start_of_unloading)
         {
-          displacement_load = peak_amplitude *
-                              std::sin(2.0 * M_PI / period *
-                                      (time - start_of_cyclic_phase))
-                              +
-                              offset;
+          displacement_load = strip_height *
+                              (peak_amplitude *
+                               std::sin(2.0 * M_PI / period *
+                                       (time - start_of_cyclic_phase))
+                               +
+                               offset);
         }
         else
         {
-          displacement_load = offset * (1 - time + start_of_unloading);
+          displacement_load =
+            strip_height * offset *
+            (1.0 - (time - start_of_unloading) /
+                   duration_of_loading_and_unloading_phase);
         }
       }
       break;
-- 
2.43.0


From 68b4895727fb03fb1f313cab61de0c47434e9f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:05 +0000
Subject: [PATCH 24/36] fix: identify the slip dofs of grain boundary faces
 through their cell index

get_global_component() takes the index of a dof within the cell, the
microhard constraints passed the index within the face.
---
 applications/simple_shear.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 7a09818..a54205d 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -484,7 +484,12 @@ void SimpleShearProblem<dim>::setup_constraints()
               for (unsigned int i = 0;
                    i < local_face_dof_indices.size(); ++i)
               {
-                if (fe_field->get_global_component(crystal_id, i) >= dim)
+                const unsigned int cell_dof_index =
+                  fe_field->get_fe_collection()[crystal_id].
+                    face_to_cell_index(i, face_index);
+
+                if (fe_field->get_global_component(
+                      crystal_id, cell_dof_index) >= dim)
                 {
                   affine_constraints.add_line(
                     local_face_dof_indices[i]);
@@ -585,7 +590,12 @@ void SimpleShearProblem<dim>::setup_constraints()
               for (unsigned int i = 0;
                    i < local_face_dof_indices.size(); ++i)
               {
-                if (fe_field->get_global_component(crystal_id, i) >= dim)
+                const unsigned int cell_dof_index =
+                  fe_field->get_fe_collection()[crystal_id].
+                    face_to_cell_index(i, face_index);
+
+                if (fe_field->get_global_component(
+                      crystal_id, cell_dof_index) >= dim)
                 {
                   newton_method_constraints.add_line(
                     local_face_dof_indices[i]);
-- 
2.43.0


From bed45a4fd785e82e24140dd2cde3345519fbe572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 25/36] fix: reject a graphical output or homogenization
 frequency of zero

The step number is taken modulo these frequencies, zero was accepted and
ended the simulation with a floating point exception.
---
 source/run_time_parameters.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 1f401e5..95992d2 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -1824,7 +1824,7 @@ void Output::declare_parameters(
 
     prm.declare_entry("Graphical output frequency",
                       "1",
-                      dealii::Patterns::Integer(0));
+                      dealii::Patterns::Integer(1));
 
     prm.declare_entry("Terminal output frequency",
                       "1",
@@ -1939,7 +1939,7 @@ void Homogenization::declare_parameters(
 
     prm.declare_entry("Homogenization frequency",
                       "1",
-                      dealii::Patterns::Integer(0));
+                      dealii::Patterns::Integer(1));
   }
   prm.leave_subsection();
 }
-- 
2.43.0


From a458b2eff00f6117484c497bff6a776a63a90c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 26/36] fix: reject invalid loading parameters in every build
 type

The durations, the period and the order of the loads come from the
parameter file but were only checked in debug mode.
---
 source/run_time_parameters.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 95992d2..00642fb 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -1569,11 +1569,16 @@ void SimpleLoading::parse_parameters(
       start_of_unloading_phase =
         start_of_cyclic_phase + n_cycles * period;
 
-      Assert(
+      AssertThrow(
         duration_monotonic_load > 0.,
         dealii::ExcLowerRangeType<double>(duration_monotonic_load, 0.));
 
-      Assert(
+      AssertThrow(
+        duration_loading_and_unloading_phase > 0.,
+        dealii::ExcLowerRangeType<double>(
+          duration_loading_and_unloading_phase, 0.));
+
+      AssertThrow(
         period > 0.,
         dealii::ExcLowerRangeType<double>(period, 0.));
 
@@ -1581,7 +1586,7 @@ void SimpleLoading::parse_parameters(
 
       message << "The maximum load has to be greater than the minimum load\n";
 
-      Assert(
+      AssertThrow(
         max_load > min_load,
         dealii::ExcMessage(message.str().c_str()));
     }
-- 
2.43.0


From e5cdc1cccb5ae91735ff616995e674dd00352504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 27/36] fix: reject unsupported solver and hardening parameters
 in every build type

The unimplemented block preconditioner and contradicting initial slip
resistances were only refused in debug mode.
---
 source/run_time_parameters.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 00642fb..3859ca1 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -415,11 +415,12 @@ void HardeningLaw::parse_parameters(dealii::ParameterHandler &prm)
   {
     prm.enter_subsection("Vectorial microstress law's parameters");
     {
-      Assert(initial_slip_resistance ==
-              prm.get_double("Initial slip resistance"),
-            dealii::ExcMessage(
-              "The initial slip resistance of the hardening law and of "
-              "the vector-valued microstress has to match"));
+      AssertThrow(
+        initial_slip_resistance ==
+          prm.get_double("Initial slip resistance"),
+        dealii::ExcMessage(
+          "The initial slip resistance of the hardening law and of "
+          "the vector-valued microstress has to match"));
     }
     prm.leave_subsection();
   }
@@ -1083,7 +1084,7 @@ void MonolithicAlgorithmParameters::parse_parameters(
     }
     else if (string_monolithic_preconditioner == std::string("block"))
     {
-      Assert(false, dealii::ExcMessage(
+      AssertThrow(false, dealii::ExcMessage(
         "Block preconditioner has not been implemented"));
 
       monolithic_preconditioner = MonolithicPreconditioner::Block;
-- 
2.43.0


From d932a6f813f2ce0340e8486ce3501f3b432e7b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 28/36] fix: choose the form of the vectorial microstress by
 the formulation flag

The ratio of the reference stress to the reference slip resistance was
used to recognize the dimensionless formulation. With reference values
for which it is one the microstress was scaled twice.
---
 source/gradient_crystal_plasticity/setup.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/setup.cc b/source/gradient_crystal_plasticity/setup.cc
index e3ce42b..a438d52 100644
--- a/source/gradient_crystal_plasticity/setup.cc
+++ b/source/gradient_crystal_plasticity/setup.cc
@@ -107,7 +107,7 @@ void GradientCrystalPlasticitySolver<dim>::init()
 
   vectorial_microstress_law->init(
     parameters.dimensionless_form_parameters.
-      dimensionless_numbers[3] != 1.0);
+      flag_solve_dimensionless_problem);
 
   init_quadrature_point_history();
 
-- 
2.43.0


From 3a4ff7e6cf8a882ae105c80e9cc8f4c8f1248960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 29/36] fix: reject unsupported formulations in every build
 type

The combinations of the dimensionless and rate-independent formulations
with constitutive grain boundaries were only refused in debug mode.
---
 .../gradient_crystal_plasticity_solver.cc                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc b/source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc
index d960d0a..32518d2 100644
--- a/source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc
+++ b/source/gradient_crystal_plasticity/gradient_crystal_plasticity_solver.cc
@@ -97,7 +97,7 @@ flag_init_was_called(false)
   if (flag_dimensionless_formulation && (flag_decohesion ||
         flag_microtraction_boundary_conditions))
   {
-    Assert(false, dealii::ExcMessage(
+    AssertThrow(false, dealii::ExcMessage(
       "The dimensionless formulation has not been implemented for the "
       "polycrystalline case of grain boundaries enhanced by a "
       "constitutive boundary condition and a cohesive law"));
@@ -105,7 +105,7 @@ flag_init_was_called(false)
 
   if (flag_rate_independent && flag_microtraction_boundary_conditions)
   {
-    Assert(false, dealii::ExcMessage(
+    AssertThrow(false, dealii::ExcMessage(
       "The rate-independent formulation has not been implemented for "
       "the case of grain boundaries enhanced by a constitutive "
       "boundary condition"));
-- 
2.43.0


From a698dd7f4767a985e47db43144c14e5ae726a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:40 +0000
Subject: [PATCH 30/36] fix: scale the stress fluctuations by the
 characteristic stress only once

---
 source/postprocessing.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index f953daf..31fd34d 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -480,7 +480,6 @@ void Postprocessor<dim>::evaluate_vector_field(
             plastic_strain_tensor;
 
         stress_tensor =
-          parameters.characteristic_quantities.stress *
           hooke_law->get_stiffness_tetrad_3d(material_id) *
           convert_2d_to_3d(elastic_strain_tensor);
 
-- 
2.43.0


From f11b2c36ba9005df263c9c4c980af355a4436a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:40 +0000
Subject: [PATCH 31/36] fix: output the fluctuation fields when they are
 requested

---
 applications/simple_shear.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index a54205d..554a106 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -166,7 +166,8 @@ postprocessor(
   crystals_data,
   parameters.solver_parameters.dimensionless_form_parameters,
   false,
-  parameters.output.flag_output_dimensionless_quantities),
+  parameters.output.flag_output_dimensionless_quantities,
+  parameters.output.flag_output_fluctuations),
 simple_shear(
   fe_field,
   mapping,
-- 
2.43.0


From 70f5195eb85882862591ad621aaa9d4a7b1b1d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:40 +0000
Subject: [PATCH 32/36] fix: average the shear stress over the area of the
 upper boundary in 3D

---
 source/postprocessing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 31fd34d..9943c9b 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -890,7 +890,7 @@ void SimpleShear<dim>::compute_stress_12_at_boundary()
   // Gather the values of each processor
   stress_12 = dealii::Utilities::MPI::sum(stress_12, MPI_COMM_WORLD);
 
-  average_stress_12 = stress_12 / width;
+  average_stress_12 = stress_12 / std::pow(width, dim - 1);
 }
 
 
-- 
2.43.0


From 9ea692a4b66de9358ea1811dfe19967230903881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 33/36] fix: report the shear strain which is prescribed under
 cyclic loading

---
 applications/simple_shear.cc |  4 ++-
 include/gCP/postprocessing.h |  8 +++++-
 source/postprocessing.cc     | 49 +++++++++++++++++++-----------------
 3 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 554a106..0be4278 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -177,7 +177,9 @@ simple_shear(
   parameters.simple_loading.duration_loading_and_unloading_phase,
   parameters.simple_loading.loading_type,
   3,
-  1. / parameters.n_elements_in_y_direction),
+  1. / parameters.n_elements_in_y_direction,
+  parameters.simple_loading.start_of_cyclic_phase,
+  parameters.simple_loading.start_of_unloading_phase),
 string_width(
   (std::to_string((unsigned int)(
   (parameters.simple_loading.end_time -
diff --git a/include/gCP/postprocessing.h b/include/gCP/postprocessing.h
index 2143b0c..2f086ea 100644
--- a/include/gCP/postprocessing.h
+++ b/include/gCP/postprocessing.h
@@ -143,7 +143,9 @@ public:
     const double                          initial_loading_time,
     const RunTimeParameters::LoadingType  loading_type,
     const dealii::types::boundary_id      upper_boundary_id,
-    const double                          width);
+    const double                          width,
+    const double                          start_of_cyclic_phase,
+    const double                          start_of_unloading_phase);
 
   void init(
     std::shared_ptr<const Kinematics::ElasticStrain<dim>>   elastic_strain,
@@ -180,6 +182,10 @@ private:
 
   const double                                            width;
 
+  const double                                            start_of_cyclic_phase;
+
+  const double                                            start_of_unloading_phase;
+
   bool                                                    flag_init_was_called;
 
   void compute_stress_12_at_boundary();
diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 9943c9b..3a5cdf3 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -683,7 +683,9 @@ SimpleShear<dim>::SimpleShear(
   const double                          initial_loading_time,
   const RunTimeParameters::LoadingType  loading_type,
   const dealii::types::boundary_id      upper_boundary_id,
-  const double                          width)
+  const double                          width,
+  const double                          start_of_cyclic_phase,
+  const double                          start_of_unloading_phase)
 :
 fe_field(fe_field),
 mapping_collection(*mapping),
@@ -694,6 +696,8 @@ initial_loading_time(initial_loading_time),
 loading_type(loading_type),
 upper_boundary_id(upper_boundary_id),
 width(width),
+start_of_cyclic_phase(start_of_cyclic_phase),
+start_of_unloading_phase(start_of_unloading_phase),
 flag_init_was_called(false)
 {
   // Setting up columns
@@ -745,33 +749,32 @@ void SimpleShear<dim>::compute_data(const double time)
       }
       break;
     case RunTimeParameters::LoadingType::Cyclic:
-      {
-        if (time >= initial_loading_time)
-          displacement_load =
-            (max_shear_strain_at_upper_boundary -
-             min_shear_strain_at_upper_boundary) / 2.0 *
-            std::cos(2.0 * M_PI / period * (time - initial_loading_time)) +
-            (max_shear_strain_at_upper_boundary +
-             min_shear_strain_at_upper_boundary) / 2.0;
-        else
-          displacement_load =
-            max_shear_strain_at_upper_boundary *
-            std::sin(M_PI / 2.0 / initial_loading_time * time);
-      }
-      break;
     case RunTimeParameters::LoadingType::CyclicWithUnloading:
       {
-        if (time >= initial_loading_time)
+        const double peak_amplitude =
+          (max_shear_strain_at_upper_boundary -
+           min_shear_strain_at_upper_boundary) / 2.0;
+
+        const double offset =
+          (max_shear_strain_at_upper_boundary +
+           min_shear_strain_at_upper_boundary) / 2.0;
+
+        if (time < start_of_cyclic_phase)
+          displacement_load =
+            offset *
+            (1.0 + (time - start_of_cyclic_phase) /
+                   initial_loading_time);
+        else if (time < start_of_unloading_phase)
           displacement_load =
-            (max_shear_strain_at_upper_boundary -
-             min_shear_strain_at_upper_boundary) / 2.0 *
-            std::cos(2.0 * M_PI / period * (time - initial_loading_time)) +
-            (max_shear_strain_at_upper_boundary +
-             min_shear_strain_at_upper_boundary) / 2.0;
+            peak_amplitude *
+            std::sin(2.0 * M_PI / period *
+                     (time - start_of_cyclic_phase)) +
+            offset;
         else
           displacement_load =
-            max_shear_strain_at_upper_boundary *
-            std::sin(M_PI / 2.0 / initial_loading_time * time);
+            offset *
+            (1.0 - (time - start_of_unloading_phase) /
+                   initial_loading_time);
       }
       break;
     default:
-- 
2.43.0


From 1d19c44d30cc59c4a762e7cca71b53a252278c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:35 +0000
Subject: [PATCH 34/36] fix: average order of convergence counted discarded
 iterations

When the active set changes the monolithic algorithm restarts the Newton
loop and its iteration counter, but kept the accumulated order of
convergence of the discarded iterations.
---
 source/gradient_crystal_plasticity/solve.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 03bc5b3..2042334 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -312,6 +312,8 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
           nonlinear_iteration = 0;
 
+          average_order_of_convergence = 0.0;
+
           reset_trial_solution(true);
 
           *pcout
-- 
2.43.0


From afa583b003a42ec5368cb1c0a3ad8170141e8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:12 +0000
Subject: [PATCH 35/36] fix: reset of the quadrature point scratch data
 iterates over the quadrature points

The number of slip systems was used as number of quadrature points, i.e.
with more slip systems than quadrature points the reset wrote beyond the
end of the slip buffers.
---
 source/gradient_crystal_plasticity/assembly_data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/assembly_data.cc b/source/gradient_crystal_plasticity/assembly_data.cc
index 5a05378..409d174 100644
--- a/source/gradient_crystal_plasticity/assembly_data.cc
+++ b/source/gradient_crystal_plasticity/assembly_data.cc
@@ -509,7 +509,7 @@ cohesive_traction_values(this->n_face_q_points)
 template <int dim>
 void Scratch<dim>::reset()
 {
-  const unsigned int n_q_points = slips_values.size();
+  const unsigned int n_q_points = this->n_q_points;
 
   for (unsigned int slip_id = 0; slip_id < n_slips; ++slip_id)
     for (unsigned int q_point = 0; q_point < n_q_points; ++q_point)
-- 
2.43.0


From 9a9d62892f7a1f94e85394bdf187a98f115cb76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:12 +0000
Subject: [PATCH 36/36] fix: face buffers of the slips have one entry per face
 quadrature point

They had one entry per quadrature point of the cell. The evaluation of the
slips at the faces filled all of them, reading beyond the rows of the shape
function table.
---
 source/gradient_crystal_plasticity/assembly_data.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly_data.cc b/source/gradient_crystal_plasticity/assembly_data.cc
index 409d174..61ce63a 100644
--- a/source/gradient_crystal_plasticity/assembly_data.cc
+++ b/source/gradient_crystal_plasticity/assembly_data.cc
@@ -445,10 +445,10 @@ old_slips_values(
   std::vector<double>(this->n_q_points, 0.0)),
 face_slip_values(
   n_slips,
-  std::vector<double>(this->n_q_points, 0.0)),
+  std::vector<double>(this->n_face_q_points, 0.0)),
 neighbor_face_slip_values(
   n_slips,
-  std::vector<double>(this->n_q_points, 0.0)),
+  std::vector<double>(this->n_face_q_points, 0.0)),
 effective_opening_displacement(this->n_face_q_points),
 thermodynamic_force_values(this->n_face_q_points),
 normal_vector_values(this->n_face_q_points),
@@ -490,10 +490,10 @@ old_slips_values(
   std::vector<double>(this->n_q_points, 0.0)),
 face_slip_values(
   n_slips,
-  std::vector<double>(this->n_q_points, 0.0)),
+  std::vector<double>(this->n_face_q_points, 0.0)),
 neighbor_face_slip_values(
   n_slips,
-  std::vector<double>(this->n_q_points, 0.0)),
+  std::vector<double>(this->n_face_q_points, 0.0)),
 effective_opening_displacement(this->n_face_q_points),
 thermodynamic_force_values(this->n_face_q_points),
 normal_vector_values(this->n_face_q_points),
-- 
2.43.0

