From 7d10e4ec8e43d934392a57fb6974d17ee26ca70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 1/8] fix: never report convergence when a residual is NaN

amax() ignores a NaN followed by another value, and the comparison
`max_error > tolerance` is false for NaN: solve() returned Ok(()) with NaN
residuals. Require each residual to be below the tolerance instead.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 1eb4d65..e6c55c0 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -155,6 +155,14 @@ where
             .evaluate_stopping_residuals(&residuals_values)
     }
 
+    /// Each error must be below the tolerance
+    ///
+    /// A `NaN` error is never below the tolerance
+    fn is_converged(&self, errors: &nalgebra::OVector<f64, D>) -> bool {
+        let tolerance = self.parameters.get_tolerance();
+        errors.iter().all(|&error| error <= tolerance)
+    }
+
     fn compute_jac<M>(&mut self, model: &mut M) -> Result<(), errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -406,7 +414,6 @@ where
         }
 
         let mut errors = self.evaluate_errors(model);
-        let mut max_error = errors.amax();
 
         if self.debug {
             self.parameters_to_log();
@@ -415,9 +422,7 @@ where
 
         // Warning: unrolling by hand the first iteration (which is always a Newton-Raphson step)
         //          is actually slowing down the code (run benchmarks to see it)
-        while max_error > self.parameters.get_tolerance()
-            && self.iter < self.parameters.get_max_iter()
-        {
+        while !self.is_converged(&errors) && self.iter < self.parameters.get_max_iter() {
             self.iter += 1;
 
             let proposed_guess = match self.parameters.get_resolution_method() {
@@ -437,10 +442,9 @@ where
                 }
             }
 
-            max_error = errors.amax();
         }
 
-        if max_error > self.parameters.get_tolerance() {
+        if !self.is_converged(&errors) {
             Err(crate::errors::SolverError::NonConvergenceError)
         } else if self.valid_last_model_evaluation {
             Ok(())
-- 
2.43.0


From baf9ca94f36b94f8fd0e286ff265dfefea38e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 2/8] fix: do not panic when the model fails during a damped
 evaluation

damping() unwrapped the result of the model evaluation, so any model error
(even a recoverable inaccurate one) aborted the process. It also left the
status of the last evaluation untouched. Handle it as the undamped one.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 45 ++++++++++++-------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index e6c55c0..7ded8e0 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -305,6 +305,29 @@ where
         self.iters_params.step_limitations(&iter_values, &raw_step)
     }
 
+    /// Evaluate the model during the iterative process
+    ///
+    /// The inaccurate values are accepted, provided it is not the final evaluation
+    fn evaluate_model<M>(&mut self, model: &mut M) -> Result<(), errors::SolverError<M, D>>
+    where
+        M: model::Model<D>,
+    {
+        match model.evaluate() {
+            Ok(()) => {
+                self.valid_last_model_evaluation = true;
+                Ok(())
+            }
+            Err(ModelError::InaccurateValuesError(_)) => {
+                self.valid_last_model_evaluation = false;
+                Ok(())
+            }
+            Err(e) => {
+                self.valid_last_model_evaluation = false;
+                Err(errors::SolverError::ModelEvaluationError(e))
+            }
+        }
+    }
+
     fn damping<M>(
         &mut self,
         model: &mut M,
@@ -312,7 +335,8 @@ where
         current_guess: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
         errors_next: &mut nalgebra::OVector<f64, D>,
-    ) where
+    ) -> Result<(), errors::SolverError<M, D>>
+    where
         M: model::Model<D>,
     {
         let max_error_next = errors_next.amax();
@@ -330,7 +354,7 @@ where
                 let damped_guess =
                     current_guess * (1.0 - damping_factor) + proposed_guess * damping_factor;
                 model.set_iteratives(&damped_guess);
-                model.evaluate().unwrap();
+                self.evaluate_model(model)?;
                 *errors_next = self.evaluate_errors(model);
 
                 if self.debug {
@@ -338,6 +362,8 @@ where
                 }
             }
         }
+
+        Ok(())
     }
 
     fn update_model<M>(
@@ -353,18 +379,7 @@ where
         let current_guess = model.get_iteratives();
 
         model.set_iteratives(proposed_guess);
-        match model.evaluate() {
-            Ok(()) => {
-                self.valid_last_model_evaluation = true;
-            }
-            Err(ModelError::InaccurateValuesError(_)) => {
-                self.valid_last_model_evaluation = false;
-            }
-            Err(e) => {
-                self.valid_last_model_evaluation = false;
-                return Err(errors::SolverError::ModelEvaluationError(e));
-            }
-        }
+        self.evaluate_model(model)?;
         let mut errors_next = self.evaluate_errors(model);
 
         if self.debug {
@@ -378,7 +393,7 @@ where
                 &current_guess,
                 proposed_guess,
                 &mut errors_next,
-            );
+            )?;
         }
 
         match self.parameters.get_resolution_method() {
-- 
2.43.0


From c5557a84217280b5ccc53e675ad321dd94021f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 3/8] fix: restart from a clean state when solve() is called
 again

The iteration counter, the jacobian and the quasi-Newton placeholders of the
previous resolution were kept, leading to spurious NonConvergenceError.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 7ded8e0..7fdf728 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -146,6 +146,16 @@ where
         self.solver_log = Some(super::log::SolverLog::new(path));
     }
 
+    /// Forget everything computed by a previous resolution
+    fn reset(&mut self) {
+        self.iter = 0;
+        self.jacobian = JacobianMatrix::new();
+        self.iteratives_step_size = None;
+        self.residuals_step_size = None;
+        self.residuals_values_current = None;
+        self.valid_last_model_evaluation = true;
+    }
+
     fn evaluate_errors<M>(&self, model: &M) -> nalgebra::OVector<f64, D>
     where
         M: model::Model<D>,
@@ -414,6 +424,8 @@ where
     where
         M: model::Model<D>,
     {
+        self.reset();
+
         model.set_iteratives(&self.initial_guess);
 
         // The first evaluation must yield usuable values
-- 
2.43.0


From c9fba947ef942e34914dc594e559f9a40422aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 4/8] fix: report an inaccurate initial evaluation when it is
 also the final one

If the initial guess is already converged but its evaluation was inaccurate,
solve() returned Ok(()) instead of FinalEvaluationError.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 7fdf728..e3093ee 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -431,8 +431,12 @@ where
         // The first evaluation must yield usuable values
         // However, then don't need to be accurate
         match model.evaluate() {
-            Ok(()) => (),
-            Err(ModelError::InaccurateValuesError(_)) => (),
+            Ok(()) => {
+                self.valid_last_model_evaluation = true;
+            }
+            Err(ModelError::InaccurateValuesError(_)) => {
+                self.valid_last_model_evaluation = false;
+            }
             Err(ModelError::UnusableValuesError(error)) => {
                 return Err(crate::errors::SolverError::ModelInitialEvaluationError(
                     error.to_string(),
-- 
2.43.0


From d38255116c36acd42e7c0c7195326d3dea02e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 5/8] fix: propagate an inaccurate analytical jacobian as a
 JacobianError

The error was discarded although no jacobian was available, so the step
computation unwrapped a None and panicked.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index e3093ee..c2fa891 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -177,7 +177,7 @@ where
     where
         M: model::Model<D>,
     {
-        let successful_jac_computation = if model.jacobian_provided() {
+        if model.jacobian_provided() {
             evaluate_jacobian_from_analytical_function(
                 &mut self.jacobian,
                 model,
@@ -190,14 +190,6 @@ where
                 self.iters_params,
                 self.residuals_config,
             )
-        };
-
-        match successful_jac_computation {
-            Ok(())
-            | Err(errors::SolverInternalError::InvalidJacobianError(
-                ModelError::InaccurateValuesError(_),
-            )) => Ok(()),
-            Err(model_error) => Err(model_error),
         }
     }
 
-- 
2.43.0


From 8dfb167f701da42594dc36016c7fb810df28309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 6/8] fix: use the update residuals in the quasi-Newton updates

y = F(x_{i+1}) - F(x_i) was computed from the absolute values of the stopping
residuals instead of the residuals driving the iterations.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index c2fa891..c6dd750 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -173,6 +173,14 @@ where
         errors.iter().all(|&error| error <= tolerance)
     }
 
+    fn evaluate_residuals<M>(&self, model: &M) -> nalgebra::OVector<f64, D>
+    where
+        M: model::Model<D>,
+    {
+        self.residuals_config
+            .evaluate_update_residuals(&model.get_residuals())
+    }
+
     fn compute_jac<M>(&mut self, model: &mut M) -> Result<(), errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -376,9 +384,9 @@ where
     where
         M: model::Model<D>,
     {
-        let errors = self.evaluate_errors(model);
-        let max_error = errors.amax();
+        let max_error = self.evaluate_errors(model).amax();
         let current_guess = model.get_iteratives();
+        let current_residuals = self.evaluate_residuals(model);
 
         model.set_iteratives(proposed_guess);
         self.evaluate_model(model)?;
@@ -402,9 +410,10 @@ where
             ResolutionMethod::NewtonRaphson => (),
             ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton) => (),
             _ => {
+                let residuals_next = self.evaluate_residuals(model);
                 self.iteratives_step_size = Some(model.get_iteratives() - current_guess);
-                self.residuals_step_size = Some(errors_next.clone() - errors);
-                self.residuals_values_current = Some(errors_next.clone())
+                self.residuals_step_size = Some(&residuals_next - current_residuals);
+                self.residuals_values_current = Some(residuals_next)
             }
         };
 
-- 
2.43.0


From 2061d29afd630f1490c60c641bf14530ee2ed9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 7/8] fix: reject NaN parameters for the iteratives

NaN compares false with everything, so it passed the validation.
---
 src/solver_n_dimensional/iteratives/iterative_var.rs    | 6 +++---
 src/solver_n_dimensional/iteratives/iterative_var_fd.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/iteratives/iterative_var.rs b/src/solver_n_dimensional/iteratives/iterative_var.rs
index 38f4598..d00e58f 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var.rs
@@ -19,20 +19,20 @@ impl IterativeParams {
     ///
     /// The `min_value` must be lower than the `max_value`
     pub fn new(max_step_abs: f64, max_step_rel: f64, min_value: f64, max_value: f64) -> Self {
-        if max_step_abs <= 0.0 {
+        if max_step_abs.is_nan() || max_step_abs <= 0.0 {
             panic!(
                 "max_step_abs must be strictly positive, provided value was {}",
                 max_step_abs
             );
         }
-        if max_step_rel <= 0.0 {
+        if max_step_rel.is_nan() || max_step_rel <= 0.0 {
             panic!(
                 "max_step_rel must be strictly positive, provided value was {}",
                 max_step_rel
             );
         }
 
-        if min_value >= max_value {
+        if min_value.is_nan() || max_value.is_nan() || min_value >= max_value {
             panic!(
                 "min_value must be strictly inferior to max_value, provided values are {} > {}",
                 min_value, max_value
diff --git a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
index 9bcb7a5..79c2eeb 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
@@ -56,13 +56,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
@@ -121,13 +121,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
-- 
2.43.0


From ebc006b8b5aeb66ab5e2a3901ad5ac385304756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 8/8] fix: display the parameters of an empty set of iteratives

---
 src/solver_n_dimensional/iteratives/iteratives_base.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/iteratives/iteratives_base.rs b/src/solver_n_dimensional/iteratives/iteratives_base.rs
index 5277f0d..be10563 100644
--- a/src/solver_n_dimensional/iteratives/iteratives_base.rs
+++ b/src/solver_n_dimensional/iteratives/iteratives_base.rs
@@ -94,7 +94,10 @@ where
     T: Iterative + fmt::Display,
 {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let finite_diff = self.iteratives_params[0].with_finite_diff();
+        let finite_diff = self
+            .iteratives_params
+            .first()
+            .map_or(false, |params| params.with_finite_diff());
 
         let mut content = String::from("Iteratives parameters\n");
         content.push_str("=====================\n\n");
-- 
2.43.0

