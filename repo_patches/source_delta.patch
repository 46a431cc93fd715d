From 954d15af90f41ba12beb225d14a91cc4b92ed1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 01/28] fix: line search: no indeterminate step length when the
 cubic model degenerates

With an exactly quadratic merit function the cubic coefficient vanishes and
the minimizer was computed as 0/0.  Use the equivalent expression without
the division by that coefficient.
---
 source/line_search.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/line_search.cc b/source/line_search.cc
index 98221e4..c70408f 100644
--- a/source/line_search.cc
+++ b/source/line_search.cc
@@ -150,10 +150,13 @@ double LineSearch::cubic_backtracking()
 
   coefficients *= factor;
 
-  double lambda = (-coefficients[1] +
-                  std::sqrt(coefficients[1]*coefficients[1] -
-                            3.0 * coefficients[0] *descent_direction)) /
-                  (3. * coefficients[0]);
+  // The minimizer of the cubic model is written such that a vanishing
+  // cubic coefficient does not lead to an indeterminate expression
+  double lambda = -descent_direction /
+                  (coefficients[1] +
+                   std::sqrt(std::max(0.0,
+                     coefficients[1]*coefficients[1] -
+                       3.0 * coefficients[0] *descent_direction)));
 
   if (lambda < 0.1*old_lambda)
     return 0.1*old_lambda;
-- 
2.43.0


From 925cf02ed8b349d0dfc42179a637f9376a98b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 02/28] fix: effective opening of an interface record counts
 opening, not closing, displacements

The normal component of the opening was taken by magnitude, so a penetration
counted as an opening and drove the damage accumulation law. The arguments
are the neighbor's and then the current cell's displacement, as declared in
the header and passed by the solver.
---
 .../quadrature_point_history.cc                           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index e80c5f6..79beb7e 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -185,8 +185,8 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector)
 {
   /*if (flag_values_were_updated)
@@ -206,7 +206,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
@@ -227,8 +227,8 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector,
   const double                effective_cohesive_traction)
 {
@@ -249,7 +249,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
-- 
2.43.0


From 8957c9c97bd04de62fb6b4ddf8abe9c6dd93a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 03/28] fix: damage does not decrease while the driving force
 is below the endurance limit

---
 source/gradient_crystal_plasticity/quadrature_point_history.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index 79beb7e..2fcc1bf 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -170,7 +170,7 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
                       old_effective_opening_displacement) *
     std::pow(1.0 - damage_variable + damage_decay_constant,
      damage_decay_exponent) *
-    (thermodynamic_force - endurance_limit);
+    macaulay_brackets(thermodynamic_force - endurance_limit);
 
   if (damage_variable > 1.0)
     damage_variable = 1.0;
-- 
2.43.0


From 60aa3c316d3fe4e8deeff04f2388a2b90a595e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 04/28] fix: displacement control follows the cyclic loading
 programme

The loading type of the parameter file was ignored (every programme was
monotonic), the cyclic branch did not scale with the height of the strip, and
the loading and unloading ramps only met the cyclic phase if they last one
unit of time.
---
 include/gCP/boundary_conditions.h |  2 ++
 source/boundary_conditions.cc     | 25 +++++++++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/gCP/boundary_conditions.h b/include/gCP/boundary_conditions.h
index 23db833..dc53744 100644
--- a/include/gCP/boundary_conditions.h
+++ b/include/gCP/boundary_conditions.h
@@ -53,6 +53,8 @@ private:
 
   const unsigned int                    component;
 
+  const double                          duration_of_loading_and_unloading_phase;
+
   const double                          period;
 
   const double                          start_of_cyclic_phase;
diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index aeaf6b4..1d0c7db 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -25,10 +25,12 @@ DisplacementControl<dim>::DisplacementControl(
 dealii::Function<dim>(n_components, parameters.start_time),
 n_crystals(n_crystals),
 strip_height(strip_height),
-loading_type(RunTimeParameters::LoadingType::Monotonic),
+loading_type(parameters.loading_type),
 max_strain_load(parameters.max_load),
 min_strain_load(parameters.min_load),
 component(component),
+duration_of_loading_and_unloading_phase(
+  parameters.duration_loading_and_unloading_phase),
 period(parameters.period),
 start_of_cyclic_phase(parameters.start_of_cyclic_phase),
 start_of_unloading(parameters.start_of_unloading_phase),
@@ -72,19 +74,26 @@ void DisplacementControl<dim>::vector_value(
 
         if (time < start_of_cyclic_phase)
         {
-          displacement_load = time * strip_height * offset;
+          displacement_load =
+            strip_height * offset *
+            (1.0 - (start_of_cyclic_phase - time) /
+                     duration_of_loading_and_unloading_phase);
         }
         else if (time < start_of_unloading)
         {
-          displacement_load = peak_amplitude *
-                              std::sin(2.0 * M_PI / period *
-                                      (time - start_of_cyclic_phase))
-                              +
-                              offset;
+          displacement_load = strip_height *
+                              (peak_amplitude *
+                               std::sin(2.0 * M_PI / period *
+                                       (time - start_of_cyclic_phase))
+                               +
+                               offset);
         }
         else
         {
-          displacement_load = offset * (1 - time + start_of_unloading);
+          displacement_load =
+            strip_height * offset *
+            (1.0 - (time - start_of_unloading) /
+                     duration_of_loading_and_unloading_phase);
         }
       }
       break;
-- 
2.43.0


From efd365a4105a484399ad6c4a52c08b6e77eed7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 05/28] fix: slip systems given by a zero vector are refused

They passed the orthogonality check and became NaN when normalized.
---
 source/crystal_data.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/crystal_data.cc b/source/crystal_data.cc
index 9a382eb..b1a2c0f 100644
--- a/source/crystal_data.cc
+++ b/source/crystal_data.cc
@@ -219,6 +219,13 @@ void CrystalsData<dim>::read_and_store_data(
                                    std::to_string(i) + "-th slip "
                                    "system are not orthogonal." ));
 
+    AssertThrow(reference_slip_normals[i].norm() > 0.0 &&
+                reference_slip_directions[i].norm() > 0.0,
+                dealii::ExcMessage("The slip normal or the slip "
+                                   "direction of the " +
+                                   std::to_string(i) + "-th slip "
+                                   "system is the zero vector." ));
+
     switch (dim)
     {
     case 2:
-- 
2.43.0


From 3c9ef4a9e57d3fc94f064c88e53eca0c2e04dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 06/28] fix: the degradation exponent reaches the damage
 evolution

It was neither initialised nor parsed, although the driving force of the
accumulation law is computed with it.
---
 source/run_time_parameters.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 1f401e5..652e1bf 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -434,6 +434,7 @@ damage_accumulation_constant(1.0),
 damage_decay_constant(0.0),
 damage_decay_exponent(1.0),
 endurance_limit(0.0),
+degradation_exponent(1.0),
 flag_couple_microtraction_to_damage(true),
 flag_couple_macrotraction_to_damage(true),
 flag_set_damage_to_zero(false)
@@ -616,6 +617,11 @@ void ConstitutiveLawsParameters::parse_parameters(dealii::ParameterHandler &prm)
     degradation_function_parameters.parse_parameters(prm);
 
     damage_evolution_parameters.parse_parameters(prm);
+
+    // The damage evolution uses the same degradation function as the
+    // macro- and microtractions
+    damage_evolution_parameters.degradation_exponent =
+      degradation_function_parameters.degradation_exponent;
   }
   prm.leave_subsection();
 }
-- 
2.43.0


From 22b9d18725de9de8d6e7e9ca8a73a014863eea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 07/28] fix: vectorial microstress is finite for vanishing
 projections and indices below two

---
 include/gCP/constitutive_laws.h | 18 ++++++++++++++++++
 source/constitutive_laws.cc     | 28 ++++++++++++----------------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/include/gCP/constitutive_laws.h b/include/gCP/constitutive_laws.h
index 1058955..2a114fb 100644
--- a/include/gCP/constitutive_laws.h
+++ b/include/gCP/constitutive_laws.h
@@ -358,10 +358,28 @@ private:
                                               slip_binormal_dyads;
 
   bool                                        flag_init_was_called;
+
+  double get_projection_factor(const double projection) const;
 };
 
 
 
+template<int dim>
+inline double
+VectorialMicrostressLaw<dim>::get_projection_factor(
+  const double projection) const
+{
+  // The power of a vanishing projection (e.g. that onto the slip
+  // orthogonal in the two-dimensional case) is not finite for indices
+  // below two. It does not contribute.
+  if (projection == 0.0 && defect_energy_index < 2.0)
+    return 0.0;
+
+  return std::pow(std::abs(projection), defect_energy_index - 2.0);
+}
+
+
+
 template<int dim>
 class MicrotractionLaw
 {
diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 77f2c60..da4bd7c 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -683,16 +683,14 @@ get_vectorial_microstress(
   return (
     factor *
     (
-      std::pow(
-        std::abs(-crystals_data->get_slip_direction(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_projection_factor(
+        crystals_data->get_slip_direction(crystal_id, slip_id) *
+        slip_gradient) *
       slip_direction_dyads[crystal_id][slip_id]
       +
-      std::pow(
-        std::abs(crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_projection_factor(
+        crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
+        slip_gradient) *
       slip_binormal_dyads[crystal_id][slip_id]
     ) *
     slip_gradient);
@@ -718,16 +716,14 @@ get_jacobian(
     factor *
     (defect_energy_index - 1.0) *
     (
-      std::pow(
-        std::abs(-crystals_data->get_slip_direction(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_projection_factor(
+        crystals_data->get_slip_direction(crystal_id, slip_id) *
+        slip_gradient) *
       slip_direction_dyads[crystal_id][slip_id]
       +
-      std::pow(
-        std::abs(crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_projection_factor(
+        crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
+        slip_gradient) *
       slip_binormal_dyads[crystal_id][slip_id]
     ));
 }
-- 
2.43.0


From ba27078a1fe110724a9ff65df59be7e9bda99708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 08/28] fix: grain interaction moduli of unit vectors may
 exceed one by rounding in three dimensions as well

---
 source/constitutive_laws.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index da4bd7c..383edfc 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -933,14 +933,14 @@ MicrotractionLaw<3>::get_grain_interaction_moduli(
 
         AssertThrow(
           std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
 
         AssertThrow(
           std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
-- 
2.43.0


From 2ae02799bd0a9759a97fe9a544f3478338767daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 09/28] fix: the consistency check of the sub-vector norms is
 relative to the norm

---
 source/fe_field.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fe_field.cc b/source/fe_field.cc
index 89eecbb..3acf93d 100644
--- a/source/fe_field.cc
+++ b/source/fe_field.cc
@@ -669,8 +669,6 @@ dealii::Vector<double> FEField<dim>::get_sub_l2_norms(
     l2_norms[1] = distributed_vector_tmp.block(1).l2_norm();
   }
 
-  l2_norms[0] /= factor;
-
   auto to_string =
       [](const double number)
   {
@@ -684,9 +682,9 @@ dealii::Vector<double> FEField<dim>::get_sub_l2_norms(
     const double tolerance_relaxation_factor = 1e4;
 
     Assert(
-      std::fabs(l2_norm - l2_norms.l2_norm()) <
+      std::fabs(l2_norm - l2_norms.l2_norm()) <=
         std::numeric_limits<double>::epsilon() *
-          tolerance_relaxation_factor,
+          tolerance_relaxation_factor * std::max(1.0, l2_norm),
       dealii::ExcMessage("The norms do not match (" +
         to_string(l2_norm) + ", " + to_string(l2_norms.l2_norm()) +
           ")"));
@@ -696,6 +694,8 @@ dealii::Vector<double> FEField<dim>::get_sub_l2_norms(
     (void)tolerance_relaxation_factor;
   }
 
+  l2_norms[0] /= factor;
+
   return l2_norms;
 }
 
-- 
2.43.0


From 5f952200883fb38e5143b1d0a2155e7272600497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 10/28] Verification hooks: observation points in the nonlinear
 solver, guarded by GCP_VERIFICATION

---
 include/gCP/verification.h                    | 34 +++++++++++++++++++
 .../gradient_crystal_plasticity/active_set.cc |  5 +++
 .../gradient_crystal_plasticity/assembly.cc   |  5 +++
 source/gradient_crystal_plasticity/solve.cc   | 14 ++++++++
 4 files changed, 58 insertions(+)
 create mode 100644 include/gCP/verification.h

diff --git a/include/gCP/verification.h b/include/gCP/verification.h
new file mode 100644
index 0000000..691b16f
--- /dev/null
+++ b/include/gCP/verification.h
@@ -0,0 +1,34 @@
+#ifndef INCLUDE_VERIFICATION_H_
+#define INCLUDE_VERIFICATION_H_
+
+/*!
+ * @brief Observation points of the verification harness
+ *
+ * @details Without the preprocessor definition GCP_VERIFICATION the
+ * macro expands to nothing. With it, the function observe() has to be
+ * provided by the harness, which receives the name of the observation
+ * point and the observed object.
+ */
+#ifdef GCP_VERIFICATION
+
+namespace gCP
+{
+
+namespace Verification
+{
+
+void observe(const char *point, const void *object);
+
+} // Verification
+
+} // gCP
+
+#define GCP_OBSERVE(point) gCP::Verification::observe(point, this)
+
+#else
+
+#define GCP_OBSERVE(point) static_cast<void>(0)
+
+#endif
+
+#endif /* INCLUDE_VERIFICATION_H_ */
diff --git a/source/gradient_crystal_plasticity/active_set.cc b/source/gradient_crystal_plasticity/active_set.cc
index 4557cf9..172facb 100644
--- a/source/gradient_crystal_plasticity/active_set.cc
+++ b/source/gradient_crystal_plasticity/active_set.cc
@@ -1,4 +1,5 @@
 #include <gCP/gradient_crystal_plasticity.h>
+#include <gCP/verification.h>
 
 
 
@@ -26,8 +27,12 @@ void GradientCrystalPlasticitySolver<dim>::active_set_algorithm(
 
       determine_inactive_set();
 
+      GCP_OBSERVE("active set determined");
+
       reset_inactive_set_values();
 
+      GCP_OBSERVE("active set applied");
+
       flag_compute_active_set = false;
     }
   }
diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 7c67d82..277015b 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1,5 +1,6 @@
 #include <gCP/assembly_data.h>
 #include <gCP/gradient_crystal_plasticity.h>
+#include <gCP/verification.h>
 
 #include <deal.II/base/work_stream.h>
 #include <deal.II/grid/filtered_iterator.h>
@@ -90,6 +91,8 @@ void GradientCrystalPlasticitySolver<dim>::assemble_jacobian()
   // Compress global data
   jacobian.compress(dealii::VectorOperation::add);
 
+  GCP_OBSERVE("matrix");
+
   if (parameters.verbose)
     *pcout << " done!" << std::endl;
 }
@@ -690,6 +693,8 @@ double GradientCrystalPlasticitySolver<dim>::assemble_residual()
 
   const double residual_norm = residual.l2_norm();
 
+  GCP_OBSERVE("residual");
+
   std::ostringstream message;
 
   message << "The residual can not be equal to zero\n";
diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index ae477d7..3ff2476 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -1,4 +1,5 @@
 #include <gCP/gradient_crystal_plasticity.h>
+#include <gCP/verification.h>
 
 #include <deal.II/numerics/data_out.h>
 
@@ -86,6 +87,8 @@ template <int dim>
 void GradientCrystalPlasticitySolver<dim>::
 solve_nonlinear_system(const bool flag_skip_extrapolation)
 {
+  GCP_OBSERVE("step");
+
   // Terminal and log output
   nonlinear_solver_logger.add_break(
     "Step " + std::to_string(discrete_time.get_step_number() + 1) +
@@ -108,6 +111,8 @@ solve_nonlinear_system(const bool flag_skip_extrapolation)
   // Active set
   reset_internal_newton_method_constraints();
 
+  GCP_OBSERVE("start");
+
   // Solution algorithm
   switch (parameters.solution_algorithm)
   {
@@ -144,6 +149,8 @@ solve_nonlinear_system(const bool flag_skip_extrapolation)
   // Update the actual solution vector
   fe_field->solution = trial_solution;
 
+  GCP_OBSERVE("accept");
+
   *pcout << std::endl;
 }
 
@@ -1173,6 +1180,8 @@ solve_linearized_system()
   // Pass the distributed vectors to their ghosted counterpart
   newton_update.block(0) = solution;
 
+  GCP_OBSERVE("solve");
+
   if (parameters.verbose)
   {
       *pcout << " done!" << std::endl;
@@ -1329,6 +1338,9 @@ solve_decoupled_linearized_subsystem(
 
   newton_update.block(block_id) = solution;
 
+  GCP_OBSERVE(
+    block_index == BlockIndex::Macro ? "solve macro" : "solve micro");
+
   if (parameters.verbose)
   {
     *pcout << " done!" << std::endl;
@@ -1456,6 +1468,8 @@ solve_reduced_linearized_system()
 
   newton_update.block(macro_block_id) = solution;
 
+  GCP_OBSERVE("solve reduced");
+
   if (parameters.verbose)
   {
     *pcout << " done!" << std::endl;
-- 
2.43.0


From 314478e78e226c7156fac45317092b978ff8a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 11/28] fix: the solver statistics report the load step of each
 row

---
 source/gradient_crystal_plasticity/solve.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 3ff2476..d243bee 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -142,6 +142,9 @@ solve_nonlinear_system(const bool flag_skip_extrapolation)
     break;
   }
 
+  table_handler.add_value(
+    "LoadStep", discrete_time.get_step_number() + 1);
+
   // Compute and store the opening displacement at the quadrature
   // points based on the converged solution
   store_effective_opening_displacement_in_quadrature_history();
-- 
2.43.0


From b57dbca48a072d63d133f0e09f935e245478be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 12/28] fix: the line search of a staggered loop restarts from
 the iterate of its own block

---
 source/gradient_crystal_plasticity/solve.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index d243bee..757afbb 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -1639,7 +1639,7 @@ line_search_algorithm(
       line_search->get_lambda(objective_function_value,
                               relaxation_parameter);
 
-    reset_trial_solution();
+    reset_trial_solution(false, block_index);
 
     update_trial_solution(relaxation_parameter, block_index);
 
-- 
2.43.0


From 18a0a2b62626357f856a0bbcedc64a480ff8e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 13/28] fix: the first iterate after a change of the active set
 is assembled with its own internal variables

The internal variables and the base of the line search were those of the
extrapolated start value, not of the iterate whose inactive slips had been
reset, and a restart with a new active set brought the extrapolated values of
inactive slips back.
---
 source/gradient_crystal_plasticity/solve.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 757afbb..c304e33 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -206,9 +206,8 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
     // start value for the active set determination). Temporary code
     //distribute_affine_constraints_to_trial_solution();
 
-    // Preparations for the Newton-Update and Line-Search
-    store_trial_solution();
-
+    // The yield condition is evaluated at the internal variables of
+    // the trial solution
     reset_and_update_internal_variables();
 
     active_set_algorithm(flag_compute_active_set);
@@ -217,6 +216,11 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
     distribute_affine_constraints_to_trial_solution();
 
+    // Preparations for the Newton-Update and Line-Search
+    store_trial_solution();
+
+    reset_and_update_internal_variables();
+
     // Assemble linear system
     assemble_linear_system();
 
@@ -312,6 +316,8 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
           reset_trial_solution(true);
 
+          reset_inactive_set_values();
+
           *pcout
             << std::endl
             << "Active set mismatch. Restarting Newton-loop with the "
-- 
2.43.0


From 6f0f2b8a231aba60f70df4cefe4a0dff65b55b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 14/28] fix: the bouncing algorithm starts from an iterate with
 the prescribed values of the step

As in the other algorithms: the first residual was that of the extrapolated
displacements without the boundary values of the new time.
---
 source/gradient_crystal_plasticity/solve.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index c304e33..5458a31 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -398,6 +398,9 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
         linear_momentum_solver_parameters.
           line_search_parameters);
 
+  // Distribute constraints to the (extrapolated) solution
+  distribute_affine_constraints_to_trial_solution();
+
   // Macro-Newton-Raphson loop
   do
   {
-- 
2.43.0


From b84f386c078155fa0823c5d2bac177f3cc0f4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 15/28] fix: the reduced system of the embracing algorithm is
 solved with its own operator

The Trilinos solver applied the Epetra payload of D - E * inv_G * F, which
deal.II composes as D + E * G * F. The update did not solve the reduced system
and the algorithm did not converge.
---
 source/gradient_crystal_plasticity/solve.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 5458a31..6574b1c 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -5,6 +5,7 @@
 
 #include <deal.II/lac/trilinos_linear_operator.h>
 #include <deal.II/lac/packaged_operation.h>
+#include <deal.II/lac/solver_cg.h>
 
 namespace gCP
 {
@@ -1453,7 +1454,11 @@ solve_reduced_linearized_system()
         macro_krylov_parameters.relative_tolerance,
       macro_krylov_parameters.absolute_tolerance));
 
-  dealii::LinearAlgebraTrilinos::SolverCG solver(solver_control);
+  // The Trilinos solvers apply the Epetra payload of the operator, which
+  // represents neither the inverse of G nor the difference. The deal.II
+  // solver applies the operator itself.
+  dealii::SolverCG<dealii::LinearAlgebraTrilinos::MPI::Vector>
+    solver(solver_control);
 
   dealii::LinearAlgebraTrilinos::MPI::PreconditionILU preconditioner;
 
-- 
2.43.0


From 29c2c6d54503ea73ad3d66a762a350477d659281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 16/28] fix: inactive slips keep their committed values when
 the staggered algorithms return to the start value

---
 source/gradient_crystal_plasticity/solve.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 6574b1c..1c73dd8 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -484,6 +484,8 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
               flag_reset_trial_solution_at_micro_loop)
         {
           reset_trial_solution(true, BlockIndex::Micro);
+
+          reset_inactive_set_values();
         }
 
         double local_average_micro_order_of_convergence = 0.;
@@ -910,6 +912,8 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
             flag_reset_trial_solution_at_micro_loop)
       {
         reset_trial_solution(true, BlockIndex::Micro);
+
+        reset_inactive_set_values();
       }
 
       line_search =
-- 
2.43.0


From 54056f685c31e881b4361e9ccc1c45844db8c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 17/28] fix: the line search accepts a trial which is exactly a
 solution

A system that was solved exactly before (start value zero, as for the slips of
an elastic body) led to an indeterminate step length.
---
 include/gCP/line_search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gCP/line_search.h b/include/gCP/line_search.h
index 65a1b36..1d1a9a8 100644
--- a/include/gCP/line_search.h
+++ b/include/gCP/line_search.h
@@ -102,7 +102,7 @@ namespace gCP
         std::cout << "Second conditions not fulfilled" << std::endl;
       }*/
 
-      return (trial_scalar_function_value <
+      return (trial_scalar_function_value <=
               initial_scalar_function_value +
                   alpha * lambda * descent_direction);
     }
-- 
2.43.0


From 244605aa913c18860db0464924cdfd7d5283c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:05 +0000
Subject: [PATCH 18/28] fix: hard grain boundaries lock the slips also when the
 polynomial degrees differ

The constraints mapped the index of a face degree of freedom with the
component table of the cell. The two agree only as long as displacements
and slips have the same polynomial degree.
---
 applications/simple_shear.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 7a09818..063390a 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -484,7 +484,10 @@ void SimpleShearProblem<dim>::setup_constraints()
               for (unsigned int i = 0;
                    i < local_face_dof_indices.size(); ++i)
               {
-                if (fe_field->get_global_component(crystal_id, i) >= dim)
+                if (fe_field->get_global_component(
+                      crystal_id,
+                      fe_field->get_fe_collection()[crystal_id].
+                        face_to_cell_index(i, face_index)) >= dim)
                 {
                   affine_constraints.add_line(
                     local_face_dof_indices[i]);
@@ -585,7 +588,10 @@ void SimpleShearProblem<dim>::setup_constraints()
               for (unsigned int i = 0;
                    i < local_face_dof_indices.size(); ++i)
               {
-                if (fe_field->get_global_component(crystal_id, i) >= dim)
+                if (fe_field->get_global_component(
+                      crystal_id,
+                      fe_field->get_fe_collection()[crystal_id].
+                        face_to_cell_index(i, face_index)) >= dim)
                 {
                   newton_method_constraints.add_line(
                     local_face_dof_indices[i]);
-- 
2.43.0


From 5aec53b04e23d35cfd61129972f155109818fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:23 +0000
Subject: [PATCH 19/28] fix: the thermodynamic force of the accumulation law is
 that of the committed damage

It was evaluated with the damage left behind by the previous evaluation of
the record, so that the damage of an iterate depended on how often and from
which side the record had been evaluated before.
---
 source/gradient_crystal_plasticity/assembly.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 277015b..99ff0e4 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1501,6 +1501,11 @@ update_local_quadrature_point_history(
 
           case RunTimeParameters::DamageEvolutionModel::M1:
             {
+              // The thermodynamic force is that of the committed damage,
+              // irrespective of previous evaluations
+              local_interface_quadrature_point_history[face_q_point]->
+                reset_values();
+
               scratch.thermodynamic_force_values[face_q_point] =
                 - degradation_function->
                     get_degradation_function_derivative_value(
-- 
2.43.0


From a9a845526cc1fae3d783434acff699c8b22c2f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 20/28] fix: partners of a periodic pair yield together
 whichever of them exceeds the yield stress

---
 .../gradient_crystal_plasticity/active_set.cc | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/source/gradient_crystal_plasticity/active_set.cc b/source/gradient_crystal_plasticity/active_set.cc
index 172facb..519435a 100644
--- a/source/gradient_crystal_plasticity/active_set.cc
+++ b/source/gradient_crystal_plasticity/active_set.cc
@@ -116,7 +116,31 @@ void GradientCrystalPlasticitySolver<dim>::determine_active_set()
           locally_owned_active_set.add_index((*constraint_entries)[0].first);
         }
       }
+    }
+
+    // The same applies to the degrees of freedom at a periodic boundary
+    // whose corresponding degree of freedom leads to plastic flow
+    for (const auto &locally_owned_dof :
+          fe_field->get_locally_owned_plastic_slip_dofs())
+    {
+      if (fe_field->get_affine_constraints().is_identity_constrained(
+            locally_owned_dof))
+      {
+        const dealii::types::global_dof_index corresponding_dof =
+          (*fe_field->get_affine_constraints().get_constraint_entries(
+            locally_owned_dof))[0].first;
 
+        if (locally_owned_active_set.is_element(corresponding_dof))
+        {
+          locally_owned_active_set.add_index(locally_owned_dof);
+        }
+      }
+    }
+
+    // The active set has to be complete at this point
+    for (const auto &locally_owned_dof :
+          fe_field->get_locally_owned_plastic_slip_dofs())
+    {
       if (!locally_owned_active_set.is_element(locally_owned_dof))
       {
         inactive_set_affine_constraints.add_line(locally_owned_dof);
-- 
2.43.0


From d483babe2e6345bbad5ea3e7b34653fe8ec09252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:30 +0000
Subject: [PATCH 21/28] fix: steps of the loading programme are not stretched
 over a short remainder of the simulation

---
 applications/simple_shear.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 063390a..8f5e3eb 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -873,6 +873,21 @@ void SimpleShearProblem<dim>::run()
       parameters.simple_loading.get_next_time_step_size(
         discrete_time.get_step_number()));
 
+    // DiscreteTime stretches a step over what remains of the simulation
+    // if the latter is short compared to the step. The steps of the
+    // loading programme are to be kept.
+    {
+      const double planned_step_size =
+        parameters.simple_loading.get_next_time_step_size(
+          discrete_time.get_step_number());
+
+      if (discrete_time.get_next_step_size() >
+            (1.0 + 1e-6) * planned_step_size)
+      {
+        discrete_time.set_next_step_size(planned_step_size);
+      }
+    }
+
     if (parameters.verbose)
     {
       *pcout << std::setw(string_width) << std::left
-- 
2.43.0


From cd7e87f789072bcc97945394ecb8b259fa63628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:30 +0000
Subject: [PATCH 22/28] fix: the reported shear at the upper boundary follows
 the cyclic loading programme

---
 applications/simple_shear.cc |  6 +---
 include/gCP/postprocessing.h | 16 ++-------
 source/postprocessing.cc     | 64 ++++++++++++++++--------------------
 3 files changed, 32 insertions(+), 54 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 8f5e3eb..e72aaad 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -170,11 +170,7 @@ postprocessor(
 simple_shear(
   fe_field,
   mapping,
-  parameters.simple_loading.max_load,
-  parameters.simple_loading.min_load,
-  parameters.simple_loading.period,
-  parameters.simple_loading.duration_loading_and_unloading_phase,
-  parameters.simple_loading.loading_type,
+  parameters.simple_loading,
   3,
   1. / parameters.n_elements_in_y_direction),
 string_width(
diff --git a/include/gCP/postprocessing.h b/include/gCP/postprocessing.h
index 2143b0c..37eda7d 100644
--- a/include/gCP/postprocessing.h
+++ b/include/gCP/postprocessing.h
@@ -137,11 +137,7 @@ public:
   SimpleShear(
     std::shared_ptr<FEField<dim>>         &fe_field,
     std::shared_ptr<dealii::Mapping<dim>> &mapping,
-    const double                          max_shear_strain_at_upper_boundary,
-    const double                          min_shear_strain_at_upper_boundary,
-    const double                          period,
-    const double                          initial_loading_time,
-    const RunTimeParameters::LoadingType  loading_type,
+    const RunTimeParameters::SimpleLoading &parameters,
     const dealii::types::boundary_id      upper_boundary_id,
     const double                          width);
 
@@ -164,15 +160,7 @@ private:
 
   std::shared_ptr<const ConstitutiveLaws::HookeLaw<dim>>  hooke_law;
 
-  const double                                            max_shear_strain_at_upper_boundary;
-
-  const double                                            min_shear_strain_at_upper_boundary;
-
-  const double                                            period;
-
-  const double                                            initial_loading_time;
-
-  RunTimeParameters::LoadingType                          loading_type;
+  const RunTimeParameters::SimpleLoading                  parameters;
 
   const dealii::types::boundary_id                        upper_boundary_id;
 
diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index f953daf..07c570c 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -678,21 +678,13 @@ template <int dim>
 SimpleShear<dim>::SimpleShear(
   std::shared_ptr<FEField<dim>>         &fe_field,
   std::shared_ptr<dealii::Mapping<dim>> &mapping,
-  const double                          max_shear_strain_at_upper_boundary,
-  const double                          min_shear_strain_at_upper_boundary,
-  const double                          period,
-  const double                          initial_loading_time,
-  const RunTimeParameters::LoadingType  loading_type,
+  const RunTimeParameters::SimpleLoading &parameters,
   const dealii::types::boundary_id      upper_boundary_id,
   const double                          width)
 :
 fe_field(fe_field),
 mapping_collection(*mapping),
-max_shear_strain_at_upper_boundary(max_shear_strain_at_upper_boundary),
-min_shear_strain_at_upper_boundary(min_shear_strain_at_upper_boundary),
-period(period),
-initial_loading_time(initial_loading_time),
-loading_type(loading_type),
+parameters(parameters),
 upper_boundary_id(upper_boundary_id),
 width(width),
 flag_init_was_called(false)
@@ -735,44 +727,46 @@ void SimpleShear<dim>::compute_data(const double time)
 
   compute_stress_12_at_boundary();
 
+  // The shear prescribed by BoundaryConditions::DisplacementControl
   double displacement_load = 0.0;
 
-  switch (loading_type)
+  switch (parameters.loading_type)
   {
     case RunTimeParameters::LoadingType::Monotonic:
       {
-        displacement_load =
-          time * max_shear_strain_at_upper_boundary;
+        displacement_load = time * parameters.max_load;
       }
       break;
     case RunTimeParameters::LoadingType::Cyclic:
       {
-        if (time >= initial_loading_time)
-          displacement_load =
-            (max_shear_strain_at_upper_boundary -
-             min_shear_strain_at_upper_boundary) / 2.0 *
-            std::cos(2.0 * M_PI / period * (time - initial_loading_time)) +
-            (max_shear_strain_at_upper_boundary +
-             min_shear_strain_at_upper_boundary) / 2.0;
-        else
+        const double peak_amplitude =
+          (parameters.max_load - parameters.min_load) / 2.0;
+
+        const double offset =
+          (parameters.max_load + parameters.min_load) / 2.0;
+
+        if (time < parameters.start_of_cyclic_phase)
+        {
           displacement_load =
-            max_shear_strain_at_upper_boundary *
-            std::sin(M_PI / 2.0 / initial_loading_time * time);
-      }
-      break;
-    case RunTimeParameters::LoadingType::CyclicWithUnloading:
-      {
-        if (time >= initial_loading_time)
+            offset *
+            (1.0 - (parameters.start_of_cyclic_phase - time) /
+                     parameters.duration_loading_and_unloading_phase);
+        }
+        else if (time < parameters.start_of_unloading_phase)
+        {
           displacement_load =
-            (max_shear_strain_at_upper_boundary -
-             min_shear_strain_at_upper_boundary) / 2.0 *
-            std::cos(2.0 * M_PI / period * (time - initial_loading_time)) +
-            (max_shear_strain_at_upper_boundary +
-             min_shear_strain_at_upper_boundary) / 2.0;
+            peak_amplitude *
+              std::sin(2.0 * M_PI / parameters.period *
+                       (time - parameters.start_of_cyclic_phase)) +
+            offset;
+        }
         else
+        {
           displacement_load =
-            max_shear_strain_at_upper_boundary *
-            std::sin(M_PI / 2.0 / initial_loading_time * time);
+            offset *
+            (1.0 - (time - parameters.start_of_unloading_phase) /
+                     parameters.duration_loading_and_unloading_phase);
+        }
       }
       break;
     default:
-- 
2.43.0


From 49f4a4f32e181934698422b8655547ba8bd18446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:30 +0000
Subject: [PATCH 23/28] fix: the stress at the upper boundary is averaged over
 its area in three dimensions as well

---
 applications/simple_shear.cc |  3 +--
 include/gCP/postprocessing.h |  5 +----
 source/postprocessing.cc     | 11 +++++++----
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index e72aaad..3d25f04 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -171,8 +171,7 @@ simple_shear(
   fe_field,
   mapping,
   parameters.simple_loading,
-  3,
-  1. / parameters.n_elements_in_y_direction),
+  3),
 string_width(
   (std::to_string((unsigned int)(
   (parameters.simple_loading.end_time -
diff --git a/include/gCP/postprocessing.h b/include/gCP/postprocessing.h
index 37eda7d..a3da274 100644
--- a/include/gCP/postprocessing.h
+++ b/include/gCP/postprocessing.h
@@ -138,8 +138,7 @@ public:
     std::shared_ptr<FEField<dim>>         &fe_field,
     std::shared_ptr<dealii::Mapping<dim>> &mapping,
     const RunTimeParameters::SimpleLoading &parameters,
-    const dealii::types::boundary_id      upper_boundary_id,
-    const double                          width);
+    const dealii::types::boundary_id      upper_boundary_id);
 
   void init(
     std::shared_ptr<const Kinematics::ElasticStrain<dim>>   elastic_strain,
@@ -166,8 +165,6 @@ private:
 
   double                                                  average_stress_12;
 
-  const double                                            width;
-
   bool                                                    flag_init_was_called;
 
   void compute_stress_12_at_boundary();
diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 07c570c..8108525 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -679,14 +679,12 @@ SimpleShear<dim>::SimpleShear(
   std::shared_ptr<FEField<dim>>         &fe_field,
   std::shared_ptr<dealii::Mapping<dim>> &mapping,
   const RunTimeParameters::SimpleLoading &parameters,
-  const dealii::types::boundary_id      upper_boundary_id,
-  const double                          width)
+  const dealii::types::boundary_id      upper_boundary_id)
 :
 fe_field(fe_field),
 mapping_collection(*mapping),
 parameters(parameters),
 upper_boundary_id(upper_boundary_id),
-width(width),
 flag_init_was_called(false)
 {
   // Setting up columns
@@ -819,6 +817,7 @@ void SimpleShear<dim>::compute_stress_12_at_boundary()
 
   double stress_12        = 0.0;
   double local_stress_12  = 0.0;
+  double area             = 0.0;
 
   for (const auto &cell : fe_field->get_dof_handler().active_cell_iterators())
     if (cell->is_locally_owned() && cell->at_boundary())
@@ -877,6 +876,8 @@ void SimpleShear<dim>::compute_stress_12_at_boundary()
             local_stress_12 +=
               stress_tensor_values[face_q_point][0][1] *
               JxW_values[face_q_point];
+
+            area += JxW_values[face_q_point];
           }
 
           stress_12 += local_stress_12;
@@ -885,7 +886,9 @@ void SimpleShear<dim>::compute_stress_12_at_boundary()
   // Gather the values of each processor
   stress_12 = dealii::Utilities::MPI::sum(stress_12, MPI_COMM_WORLD);
 
-  average_stress_12 = stress_12 / width;
+  area = dealii::Utilities::MPI::sum(area, MPI_COMM_WORLD);
+
+  average_stress_12 = stress_12 / area;
 }
 
 
-- 
2.43.0


From be2403d22a82d2f886d595eb4762a957397bcb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 24/28] fix: output and homogenization frequencies of zero are
 refused

---
 source/run_time_parameters.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 652e1bf..bab0ac2 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -1830,7 +1830,7 @@ void Output::declare_parameters(
 
     prm.declare_entry("Graphical output frequency",
                       "1",
-                      dealii::Patterns::Integer(0));
+                      dealii::Patterns::Integer(1));
 
     prm.declare_entry("Terminal output frequency",
                       "1",
@@ -1945,7 +1945,7 @@ void Homogenization::declare_parameters(
 
     prm.declare_entry("Homogenization frequency",
                       "1",
-                      dealii::Patterns::Integer(0));
+                      dealii::Patterns::Integer(1));
   }
   prm.leave_subsection();
 }
-- 
2.43.0


From 3d75badcb0ca2527509135690ff290d340fb4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 25/28] fix: stress fluctuations are scaled once by the
 characteristic stress

---
 source/postprocessing.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 8108525..efc52c8 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -480,7 +480,6 @@ void Postprocessor<dim>::evaluate_vector_field(
             plastic_strain_tensor;
 
         stress_tensor =
-          parameters.characteristic_quantities.stress *
           hooke_law->get_stiffness_tetrad_3d(material_id) *
           convert_2d_to_3d(elastic_strain_tensor);
 
-- 
2.43.0


From d26ed299d9c0f0bf27c22bca2b1c9b0f7f23f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 26/28] fix: the macroscopic damage is integrated from zero

---
 source/gradient_crystal_plasticity/assembly.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 99ff0e4..03e566e 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -2026,7 +2026,7 @@ double GradientCrystalPlasticitySolver<dim>::get_macroscopic_damage()
   // at the quadrature points
   std::vector<double> JxW_values(n_face_quadrature_points);
 
-  double              domain_integral_damage_variable;
+  double              domain_integral_damage_variable = 0.;
 
   double              cell_integral_damage_variable;
 
-- 
2.43.0


From fe992befb8f1376baf1bff8de947043cea48614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:12 +0000
Subject: [PATCH 27/28] fix: the fluctuation fields are written when they are
 asked for

---
 applications/simple_shear.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 3d25f04..23ce884 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -166,7 +166,8 @@ postprocessor(
   crystals_data,
   parameters.solver_parameters.dimensionless_form_parameters,
   false,
-  parameters.output.flag_output_dimensionless_quantities),
+  parameters.output.flag_output_dimensionless_quantities,
+  parameters.output.flag_output_fluctuations),
 simple_shear(
   fe_field,
   mapping,
-- 
2.43.0


From 41e39d9009564893d9d706562b531d11ba69caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:27 +0000
Subject: [PATCH 28/28] fix: von Mises values of homogenized tensors in plane
 strain include the component normal to the plane

---
 include/gCP/postprocessing.h | 12 ++++++
 source/postprocessing.cc     | 71 +++++++++++++++++++++++++++++++-----
 2 files changed, 74 insertions(+), 9 deletions(-)

diff --git a/include/gCP/postprocessing.h b/include/gCP/postprocessing.h
index a3da274..b6682f6 100644
--- a/include/gCP/postprocessing.h
+++ b/include/gCP/postprocessing.h
@@ -291,6 +291,18 @@ private:
    */
   dealii::SymmetricTensor<2,dim>                          microstress_fluctuations;
 
+  /*!
+   * @brief The component of @ref macroscopic_stress normal to the plane
+   * in plane strain
+   */
+  double                                                  macroscopic_stress_33;
+
+  /*!
+   * @brief The component of @ref microstress_fluctuations normal to the
+   * plane in plane strain
+   */
+  double                                                  microstress_fluctuations_33;
+
   /*!
    * @brief The macroscopic strain tensor
    */
diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index efc52c8..c506a65 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -1060,18 +1060,35 @@ void Homogenization<dim>::output_macroscopic_quantities_to_file()
 template <>
 void Homogenization<2>::update_table_handler_values(const double time)
 {
-  const dealii::SymmetricTensor<2,2> deviatoric_stress =
-    deviatoric_projector * macroscopic_stress;
+  // In plane strain the von Mises values depend on the component normal
+  // to the plane as well
+  const auto get_deviator = [](
+    const dealii::SymmetricTensor<2,2> &tensor,
+    const double                        out_of_plane_component)
+  {
+    dealii::SymmetricTensor<2,3> tensor_3d;
 
-  const dealii::SymmetricTensor<2,2> deviatoric_stress_fluctuations =
-    deviatoric_projector * microstress_fluctuations;
+    tensor_3d[0][0] = tensor[0][0];
+    tensor_3d[1][1] = tensor[1][1];
+    tensor_3d[0][1] = tensor[0][1];
+    tensor_3d[2][2] = out_of_plane_component;
 
-  const dealii::SymmetricTensor<2,2> deviatoric_strain =
-    deviatoric_projector * (macroscopic_strain +
-                            microstrain_fluctuations);
+    return dealii::deviator(tensor_3d);
+  };
 
-  const dealii::SymmetricTensor<2,2> deviatoric_strain_fluctuations =
-    deviatoric_projector * microstrain_fluctuations;
+  const dealii::SymmetricTensor<2,3> deviatoric_stress =
+    get_deviator(macroscopic_stress,
+                 macroscopic_stress_33);
+
+  const dealii::SymmetricTensor<2,3> deviatoric_stress_fluctuations =
+    get_deviator(microstress_fluctuations,
+                 microstress_fluctuations_33);
+
+  const dealii::SymmetricTensor<2,3> deviatoric_strain =
+    get_deviator(macroscopic_strain + microstrain_fluctuations, 0.0);
+
+  const dealii::SymmetricTensor<2,3> deviatoric_strain_fluctuations =
+    get_deviator(microstrain_fluctuations, 0.0);
 
   const double von_mises_stress =
     std::sqrt(3./2. * deviatoric_stress * deviatoric_stress);
@@ -1199,6 +1216,10 @@ void Homogenization<dim>::compute_macroscopic_stress()
 
   microstrain_fluctuations = 0.0;
 
+  macroscopic_stress_33       = 0.0;
+
+  microstress_fluctuations_33 = 0.0;
+
   const dealii::UpdateFlags update_flags =
     dealii::update_JxW_values |
     dealii::update_values |
@@ -1324,6 +1345,27 @@ void Homogenization<dim>::compute_macroscopic_stress()
           strain_tensor_values[quadrature_point_id] *
           JxW_values[quadrature_point_id];
 
+        if constexpr (dim == 2)
+        {
+          const dealii::SymmetricTensor<4,3> &stiffness_tetrad =
+            hooke_law->get_stiffness_tetrad_3d(crystal_id);
+
+          for (unsigned int i = 0; i < dim; ++i)
+            for (unsigned int j = 0; j < dim; ++j)
+            {
+              macroscopic_stress_33 +=
+                stiffness_tetrad[2][2][i][j] *
+                (macroscopic_strain[i][j] +
+                 elastic_strain_tensor_values[quadrature_point_id][i][j]) *
+                JxW_values[quadrature_point_id];
+
+              microstress_fluctuations_33 +=
+                stiffness_tetrad[2][2][i][j] *
+                elastic_strain_tensor_values[quadrature_point_id][i][j] *
+                JxW_values[quadrature_point_id];
+            }
+        }
+
         cell_volume += JxW_values[quadrature_point_id];
       }
 
@@ -1354,6 +1396,13 @@ void Homogenization<dim>::compute_macroscopic_stress()
     dealii::Utilities::MPI::sum(
       domain_integral_microstrain_fluctuations, MPI_COMM_WORLD);
 
+  macroscopic_stress_33 =
+    dealii::Utilities::MPI::sum(macroscopic_stress_33, MPI_COMM_WORLD);
+
+  microstress_fluctuations_33 =
+    dealii::Utilities::MPI::sum(microstress_fluctuations_33,
+                                MPI_COMM_WORLD);
+
   domain_volume =
     dealii::Utilities::MPI::sum(domain_volume, MPI_COMM_WORLD);
 
@@ -1365,6 +1414,10 @@ void Homogenization<dim>::compute_macroscopic_stress()
 
   microstrain_fluctuations =
     domain_integral_microstrain_fluctuations / domain_volume;
+
+  macroscopic_stress_33 /= domain_volume;
+
+  microstress_fluctuations_33 /= domain_volume;
 }
 
 
-- 
2.43.0

