From 56877bf7824f8db9cd8e4bcba7ee54741ce15ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 01/11] fix: do not treat a NaN residual as a convergence

---
 src/solver_n_dimensional/solver/rootfinder.rs | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 1eb4d65..34139f0 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -155,6 +155,22 @@ where
             .evaluate_stopping_residuals(&residuals_values)
     }
 
+    /// The greatest of the errors
+    ///
+    /// An error that is not a number can't be compared to the tolerance:
+    /// it is considered as infinite, so that it is never mistaken for a convergence.
+    fn evaluate_max_error(errors: &nalgebra::OVector<f64, D>) -> f64 {
+        if errors.iter().any(|error| error.is_nan()) {
+            f64::INFINITY
+        } else {
+            errors.amax()
+        }
+    }
+
+    fn is_converged(&self, max_error: f64) -> bool {
+        max_error <= self.parameters.get_tolerance()
+    }
+
     fn compute_jac<M>(&mut self, model: &mut M) -> Result<(), errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -307,7 +323,7 @@ where
     ) where
         M: model::Model<D>,
     {
-        let max_error_next = errors_next.amax();
+        let max_error_next = Self::evaluate_max_error(errors_next);
         if max_error_next > max_error {
             // see documentation of the `SolverParameters` struct
             if self.parameters.get_resolution_method() != ResolutionMethod::NewtonRaphson
@@ -341,7 +357,7 @@ where
         M: model::Model<D>,
     {
         let errors = self.evaluate_errors(model);
-        let max_error = errors.amax();
+        let max_error = Self::evaluate_max_error(&errors);
         let current_guess = model.get_iteratives();
 
         model.set_iteratives(proposed_guess);
@@ -406,7 +422,7 @@ where
         }
 
         let mut errors = self.evaluate_errors(model);
-        let mut max_error = errors.amax();
+        let mut max_error = Self::evaluate_max_error(&errors);
 
         if self.debug {
             self.parameters_to_log();
@@ -415,9 +431,7 @@ where
 
         // Warning: unrolling by hand the first iteration (which is always a Newton-Raphson step)
         //          is actually slowing down the code (run benchmarks to see it)
-        while max_error > self.parameters.get_tolerance()
-            && self.iter < self.parameters.get_max_iter()
-        {
+        while !self.is_converged(max_error) && self.iter < self.parameters.get_max_iter() {
             self.iter += 1;
 
             let proposed_guess = match self.parameters.get_resolution_method() {
@@ -437,10 +451,10 @@ where
                 }
             }
 
-            max_error = errors.amax();
+            max_error = Self::evaluate_max_error(&errors);
         }
 
-        if max_error > self.parameters.get_tolerance() {
+        if !self.is_converged(max_error) {
             Err(crate::errors::SolverError::NonConvergenceError)
         } else if self.valid_last_model_evaluation {
             Ok(())
-- 
2.43.0


From 6c4f6c08ccca540971566d037f73e21ac5d7d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 02/11] fix: report a NaN error as the max error in the log

---
 src/solver_n_dimensional/solver/log.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/solver/log.rs b/src/solver_n_dimensional/solver/log.rs
index e96472e..2cedf82 100644
--- a/src/solver_n_dimensional/solver/log.rs
+++ b/src/solver_n_dimensional/solver/log.rs
@@ -143,7 +143,13 @@ impl SolverLog {
         nalgebra::DefaultAllocator: nalgebra::base::allocator::Allocator<D>,
     {
         let mut iteration_log_header = String::new();
-        iteration_log_header.push_str(&format!("Max error: {}\n\n", errors.amax()));
+        // `amax` ignores the values that are not a number
+        let max_error = if errors.iter().any(|error| error.is_nan()) {
+            f64::NAN
+        } else {
+            errors.amax()
+        };
+        iteration_log_header.push_str(&format!("Max error: {}\n\n", max_error));
         self.add_content(&iteration_log_header);
         self.add_content(SEPARATION_LINE);
         self.add_content(TITLE_LINE);
-- 
2.43.0


From 022ea806cafc013cffcdce0bff554de8f30d7f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 03/11] fix: start each resolution from a fresh solver state

---
 src/solver_n_dimensional/solver/rootfinder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 34139f0..2778a2d 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -402,11 +402,22 @@ where
         Ok(errors_next)
     }
 
+    /// Forget everything about a previous resolution
+    fn reset(&mut self) {
+        self.iter = 0;
+        self.jacobian = JacobianMatrix::new();
+        self.iteratives_step_size = None;
+        self.residuals_step_size = None;
+        self.residuals_values_current = None;
+        self.valid_last_model_evaluation = true;
+    }
+
     /// The core function performing the resolution on a given `Model`
     pub fn solve<M>(&mut self, model: &mut M) -> Result<(), crate::errors::SolverError<M, D>>
     where
         M: model::Model<D>,
     {
+        self.reset();
         model.set_iteratives(&self.initial_guess);
 
         // The first evaluation must yield usuable values
-- 
2.43.0


From 93a45869649d66e05b9e8a3f3505b6267b38c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 04/11] fix: report an inaccurate initial evaluation when the
 guess is already converged

---
 src/solver_n_dimensional/solver/rootfinder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 2778a2d..615a728 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -423,8 +423,8 @@ where
         // The first evaluation must yield usuable values
         // However, then don't need to be accurate
         match model.evaluate() {
-            Ok(()) => (),
-            Err(ModelError::InaccurateValuesError(_)) => (),
+            Ok(()) => self.valid_last_model_evaluation = true,
+            Err(ModelError::InaccurateValuesError(_)) => self.valid_last_model_evaluation = false,
             Err(ModelError::UnusableValuesError(error)) => {
                 return Err(crate::errors::SolverError::ModelInitialEvaluationError(
                     error.to_string(),
-- 
2.43.0


From 44e97d455be090866dbbe614a9dde314adf649ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 05/11] fix: handle the model errors raised while damping

---
 src/solver_n_dimensional/solver/rootfinder.rs | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 615a728..cf9f75c 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -320,7 +320,8 @@ where
         current_guess: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
         errors_next: &mut nalgebra::OVector<f64, D>,
-    ) where
+    ) -> Result<(), errors::SolverError<M, D>>
+    where
         M: model::Model<D>,
     {
         let max_error_next = Self::evaluate_max_error(errors_next);
@@ -338,7 +339,18 @@ where
                 let damped_guess =
                     current_guess * (1.0 - damping_factor) + proposed_guess * damping_factor;
                 model.set_iteratives(&damped_guess);
-                model.evaluate().unwrap();
+                match model.evaluate() {
+                    Ok(()) => {
+                        self.valid_last_model_evaluation = true;
+                    }
+                    Err(ModelError::InaccurateValuesError(_)) => {
+                        self.valid_last_model_evaluation = false;
+                    }
+                    Err(e) => {
+                        self.valid_last_model_evaluation = false;
+                        return Err(errors::SolverError::ModelEvaluationError(e));
+                    }
+                }
                 *errors_next = self.evaluate_errors(model);
 
                 if self.debug {
@@ -346,6 +358,8 @@ where
                 }
             }
         }
+
+        Ok(())
     }
 
     fn update_model<M>(
@@ -386,7 +400,7 @@ where
                 &current_guess,
                 proposed_guess,
                 &mut errors_next,
-            );
+            )?;
         }
 
         match self.parameters.get_resolution_method() {
-- 
2.43.0


From 470a245c6fc6272a21e188c429ff0c7bce1d3d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 06/11] fix: report an inaccurate analytic jacobian instead of
 panicking

---
 src/solver_n_dimensional/solver/rootfinder.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index cf9f75c..9962740 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -175,7 +175,8 @@ where
     where
         M: model::Model<D>,
     {
-        let successful_jac_computation = if model.jacobian_provided() {
+        // When the evaluation fails, there is no jacobian available to compute a step
+        if model.jacobian_provided() {
             evaluate_jacobian_from_analytical_function(
                 &mut self.jacobian,
                 model,
@@ -188,14 +189,6 @@ where
                 self.iters_params,
                 self.residuals_config,
             )
-        };
-
-        match successful_jac_computation {
-            Ok(())
-            | Err(errors::SolverInternalError::InvalidJacobianError(
-                ModelError::InaccurateValuesError(_),
-            )) => Ok(()),
-            Err(model_error) => Err(model_error),
         }
     }
 
-- 
2.43.0


From 0d68d880bb5a8f23729601ab7061b0f98e783ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 07/11] fix: reject NaN in the configuration of the iterative
 variables

---
 src/solver_n_dimensional/iteratives/iterative_var.rs    | 6 +++---
 src/solver_n_dimensional/iteratives/iterative_var_fd.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/iteratives/iterative_var.rs b/src/solver_n_dimensional/iteratives/iterative_var.rs
index 38f4598..d00e58f 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var.rs
@@ -19,20 +19,20 @@ impl IterativeParams {
     ///
     /// The `min_value` must be lower than the `max_value`
     pub fn new(max_step_abs: f64, max_step_rel: f64, min_value: f64, max_value: f64) -> Self {
-        if max_step_abs <= 0.0 {
+        if max_step_abs.is_nan() || max_step_abs <= 0.0 {
             panic!(
                 "max_step_abs must be strictly positive, provided value was {}",
                 max_step_abs
             );
         }
-        if max_step_rel <= 0.0 {
+        if max_step_rel.is_nan() || max_step_rel <= 0.0 {
             panic!(
                 "max_step_rel must be strictly positive, provided value was {}",
                 max_step_rel
             );
         }
 
-        if min_value >= max_value {
+        if min_value.is_nan() || max_value.is_nan() || min_value >= max_value {
             panic!(
                 "min_value must be strictly inferior to max_value, provided values are {} > {}",
                 min_value, max_value
diff --git a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
index 9bcb7a5..79c2eeb 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
@@ -56,13 +56,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
@@ -121,13 +121,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
-- 
2.43.0


From bcf937d72426b23c7d2113b3891320191cb49667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 08/11] fix: do not turn a NaN step into a jump to the min
 value

---
 src/solver_n_dimensional/iteratives/iterative_var.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/iteratives/iterative_var.rs b/src/solver_n_dimensional/iteratives/iterative_var.rs
index d00e58f..ff28ea9 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var.rs
@@ -117,7 +117,8 @@ impl Iterative for IterativeParams {
         let value_next_lim = value_current + step_lim;
 
         // limitation by min_value and max_value
-        (value_next_lim.max(self.min_value)).min(self.max_value)
+        // a step that is not a number is propagated, and not turned into a jump to a bound
+        value_next_lim.clamp(self.min_value, self.max_value)
     }
 }
 
-- 
2.43.0


From 319a5aea1f7fa0dfdcb5129e8ab153aeaf713a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 09/11] fix: update the quasi-Newton approximations with the
 signed update residuals

---
 src/solver_n_dimensional/solver/rootfinder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 9962740..c74d368 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -366,6 +366,9 @@ where
         let errors = self.evaluate_errors(model);
         let max_error = Self::evaluate_max_error(&errors);
         let current_guess = model.get_iteratives();
+        let residuals = self
+            .residuals_config
+            .evaluate_update_residuals(&model.get_residuals());
 
         model.set_iteratives(proposed_guess);
         match model.evaluate() {
@@ -401,8 +404,12 @@ where
             ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton) => (),
             _ => {
                 self.iteratives_step_size = Some(model.get_iteratives() - current_guess);
-                self.residuals_step_size = Some(errors_next.clone() - errors);
-                self.residuals_values_current = Some(errors_next.clone())
+                // The secant equation is on the (signed) residuals used to compute the step
+                let residuals_next = self
+                    .residuals_config
+                    .evaluate_update_residuals(&model.get_residuals());
+                self.residuals_step_size = Some(&residuals_next - residuals);
+                self.residuals_values_current = Some(residuals_next);
             }
         };
 
-- 
2.43.0


From 3ede94e94dc3a7fc4f4fde9a8a7cbec646550a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:44 +0000
Subject: [PATCH 10/11] fix: do not treat a NaN residual as a convergence with
 an infinite tolerance

---
 src/solver_n_dimensional/solver/rootfinder.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index c74d368..9169da9 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -167,8 +167,10 @@ where
         }
     }
 
-    fn is_converged(&self, max_error: f64) -> bool {
-        max_error <= self.parameters.get_tolerance()
+    /// An error that is not a number is not a convergence, even with an infinite tolerance
+    fn is_converged(&self, errors: &nalgebra::OVector<f64, D>) -> bool {
+        let tolerance = self.parameters.get_tolerance();
+        errors.iter().all(|error| *error <= tolerance)
     }
 
     fn compute_jac<M>(&mut self, model: &mut M) -> Result<(), errors::SolverInternalError<M, D>>
@@ -447,7 +449,6 @@ where
         }
 
         let mut errors = self.evaluate_errors(model);
-        let mut max_error = Self::evaluate_max_error(&errors);
 
         if self.debug {
             self.parameters_to_log();
@@ -456,7 +457,7 @@ where
 
         // Warning: unrolling by hand the first iteration (which is always a Newton-Raphson step)
         //          is actually slowing down the code (run benchmarks to see it)
-        while !self.is_converged(max_error) && self.iter < self.parameters.get_max_iter() {
+        while !self.is_converged(&errors) && self.iter < self.parameters.get_max_iter() {
             self.iter += 1;
 
             let proposed_guess = match self.parameters.get_resolution_method() {
@@ -475,11 +476,9 @@ where
                     return Err(errors::SolverError::JacobianError(error));
                 }
             }
-
-            max_error = Self::evaluate_max_error(&errors);
         }
 
-        if !self.is_converged(max_error) {
+        if !self.is_converged(&errors) {
             Err(crate::errors::SolverError::NonConvergenceError)
         } else if self.valid_last_model_evaluation {
             Ok(())
-- 
2.43.0


From 2026ae656d6b9e850ef67976c54ec2892da90f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 11/11] fix: display the Jacobian matrices of any width

The width of a formatted text is limited to 65535 characters: the display
of a wider matrix panicked, while a large problem was being solved with the
log activated for example.
---
 .../solver/jacobian/jacobian_struct.rs        | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/jacobian/jacobian_struct.rs b/src/solver_n_dimensional/solver/jacobian/jacobian_struct.rs
index 756a6c3..b371602 100644
--- a/src/solver_n_dimensional/solver/jacobian/jacobian_struct.rs
+++ b/src/solver_n_dimensional/solver/jacobian/jacobian_struct.rs
@@ -16,6 +16,33 @@ where
     }
 }
 
+/// Text of a matrix
+///
+/// The width of a formatted text can't exceed `u16::MAX` characters:
+/// the columns of a matrix that is wider are not aligned.
+fn matrix_to_string<D>(matrix: &nalgebra::OMatrix<f64, D, D>) -> String
+where
+    D: nalgebra::DimMin<D, Output = D>,
+    nalgebra::DefaultAllocator: nalgebra::base::allocator::Allocator<D, D>,
+{
+    let max_length = matrix.iter().map(|value| value.to_string().len()).max();
+
+    if (max_length.unwrap_or(0) + 1) * matrix.ncols() <= usize::from(u16::MAX) {
+        return matrix.to_string();
+    }
+
+    let mut content = String::from("\n");
+    for row in matrix.row_iter() {
+        content.push_str("  │");
+        for value in row.iter() {
+            content.push_str(&format!(" {}", value));
+        }
+        content.push_str(" │\n");
+    }
+    content.push('\n');
+    content
+}
+
 pub struct JacobianMatrix<D>
 where
     D: nalgebra::DimMin<D, Output = D>,
@@ -142,7 +169,7 @@ where
             Some(jac) => {
                 content.push_str("Jacobian up to date with its inverse\n\n");
                 content.push_str("Jacobian:\n");
-                content.push_str(&jac.to_string());
+                content.push_str(&matrix_to_string(jac));
             }
             None => {
                 content.push_str("Jacobian not up to date with its inverse.\n");
@@ -153,7 +180,7 @@ where
         content.push_str("Inverse of the jacobian Matrix:\n");
 
         match &self.inverse {
-            Some(inv) => content.push_str(&inv.to_string()),
+            Some(inv) => content.push_str(&matrix_to_string(inv)),
             None => content.push_str("Inverse jacobian matrix not yet computed"),
         }
 
-- 
2.43.0

