From 214be68d1f0b927bfb4e8e9cda34de82484c4f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:45 +0000
Subject: [PATCH 01/49] fix: do not draw from the global NumPy random state
 when wrapping SciPy random variables

---
 src/probnum/randvars/_scipy_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_scipy_stats.py b/src/probnum/randvars/_scipy_stats.py
index a8ae635..cf50662 100644
--- a/src/probnum/randvars/_scipy_stats.py
+++ b/src/probnum/randvars/_scipy_stats.py
@@ -205,8 +205,8 @@ def _rv_init_kwargs_from_scipy_rv(
     scipy_rv
         SciPy random variable.
     """
-    # Infer shape and dtype
-    sample = _return_numpy(scipy_rv.rvs)()
+    # Infer shape and dtype (without touching the global NumPy random state)
+    sample = _return_numpy(scipy_rv.rvs)(random_state=np.random.default_rng(1))
 
     shape = sample.shape
     dtype = sample.dtype
-- 
2.43.0


From 71aaec6f31a23246c051d746375cc639ead48410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:39 +0000
Subject: [PATCH 02/49] fix: leave the configuration unchanged when a context
 is requested with an unknown option

---
 src/probnum/_config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/probnum/_config.py b/src/probnum/_config.py
index 098ab9f..8cb1ef6 100644
--- a/src/probnum/_config.py
+++ b/src/probnum/_config.py
@@ -75,15 +75,16 @@ class Configuration:
         """Context manager used to set values of registered config options."""
         old_options = {}
 
-        for key, value in kwargs.items():
+        for key in kwargs:
             if key not in self._options_registry:
                 raise AttributeError(Configuration._NON_REGISTERED_KEY_ERR_MSG % key)
 
             old_options[key] = self._options_registry[key].value
 
-            self._options_registry[key].value = value
-
         try:
+            for key, value in kwargs.items():
+                self._options_registry[key].value = value
+
             yield
         finally:
             for key, old_value in old_options.items():
-- 
2.43.0


From ef7324263ebb6f62afd9f8e0e7a33ed73b921736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 03/49] fix: do not step beyond tmax when the first step size
 exceeds the time span

---
 src/probnum/diffeq/_odesolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index aa512b9..6f5c142 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -73,7 +73,7 @@ class ODESolver(ABC):
         state = self.initialize(ivp)
         yield state
 
-        dt = self.steprule.firststep
+        dt = min(self.steprule.firststep, state.ivp.tmax - state.t)
 
         # Use state.ivp in case a callback modifies the IVP
         while state.t < state.ivp.tmax:
-- 
2.43.0


From 31a15b29e8f7aa703e2de8b548d5153aed34e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 04/49] fix: weight all local estimates equally in the running
 average of ConstantDiffusion

---
 src/probnum/randprocs/markov/continuous/_diffusions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index 43d33cf..ee677e7 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -87,7 +87,7 @@ class ConstantDiffusion(Diffusion):
         if self.diffusion is None:
             self.diffusion = local_estimate
         else:
-            a = 1 / self._seen_diffusions
+            a = 1 / (self._seen_diffusions + 1)
             b = 1 - a
             self.diffusion = a * local_estimate + b * self.diffusion
         self._seen_diffusions += 1
-- 
2.43.0


From b3031ca12b68ddc9d80a2ef70b0a2da54ae69100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:02 +0000
Subject: [PATCH 05/49] fix: transposes of Selection and Embedding keep the
 data type

---
 src/probnum/linops/_linear_operator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 81854bd..c6b2806 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1797,6 +1797,7 @@ class Selection(LambdaLinearOperator):
                 take_indices=np.arange(len(self._indices)),
                 put_indices=self._indices,
                 shape=(self.shape[1], self.shape[0]),
+                dtype=self.dtype,
             ),
         )
 
@@ -1852,7 +1853,9 @@ class Embedding(LambdaLinearOperator):
             matmul=lambda x: _embedding_matmul(self, x),
             todense=self._todense,
             transpose=lambda: Selection(
-                indices=put_indices, shape=(self.shape[1], self.shape[0])
+                indices=put_indices,
+                shape=(self.shape[1], self.shape[0]),
+                dtype=self.dtype,
             ),
         )
 
-- 
2.43.0


From bd823ac28ef41872d20f22c2e29d683544b50bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:02 +0000
Subject: [PATCH 06/49] fix: IntegratedWienerTransition.discretise honours
 backward_implementation

---
 src/probnum/randprocs/markov/integrator/_iwp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/integrator/_iwp.py b/src/probnum/randprocs/markov/integrator/_iwp.py
index b62c6ac..d2a0a33 100644
--- a/src/probnum/randprocs/markov/integrator/_iwp.py
+++ b/src/probnum/randprocs/markov/integrator/_iwp.py
@@ -313,5 +313,5 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
                 cov_cholesky=proc_noise_cov_cholesky,
             ),
             forward_implementation=self.forward_implementation,
-            backward_implementation=self.forward_implementation,
+            backward_implementation=self.backward_implementation,
         )
-- 
2.43.0


From 35a534841d924cfe9176371e4129d4ceeaeb7119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:02 +0000
Subject: [PATCH 07/49] fix: logistic_ode hands the chosen implementations to
 the measurement model

---
 .../problems/zoo/filtsmooth/_filtsmooth_problems.py    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
index 3d0dbdf..b72595e 100644
--- a/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
+++ b/src/probnum/problems/zoo/filtsmooth/_filtsmooth_problems.py
@@ -580,9 +580,15 @@ def logistic_ode(
         num_prior_derivatives=order, ode_dimension=logistic_ivp.dimension
     )
     if ek0_or_ek1 == 0:
-        ek = diffeq.odefilter.approx_strategies.EK0()
+        ek = diffeq.odefilter.approx_strategies.EK0(
+            forward_implementation=forward_implementation,
+            backward_implementation=backward_implementation,
+        )
     else:
-        ek = diffeq.odefilter.approx_strategies.EK1()
+        ek = diffeq.odefilter.approx_strategies.EK1(
+            forward_implementation=forward_implementation,
+            backward_implementation=backward_implementation,
+        )
     regression_problem = diffeq.odefilter.utils.ivp_to_regression_problem(
         ivp=logistic_ivp,
         locations=time_grid,
-- 
2.43.0


From 39239420861eb1f7856113bcac375ee33d31e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:34:44 +0000
Subject: [PATCH 08/49] fix: do not take zero or negative steps when several
 stop locations lie behind

---
 src/probnum/diffeq/_odesolver.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/probnum/diffeq/_odesolver.py b/src/probnum/diffeq/_odesolver.py
index 6f5c142..fbe1e5e 100644
--- a/src/probnum/diffeq/_odesolver.py
+++ b/src/probnum/diffeq/_odesolver.py
@@ -180,13 +180,9 @@ class _TimeStopperState:
 
 
 def _adjust_time_step(stopper_state, t, dt):
-    if t >= stopper_state.next_location:
-        try:
-            next_location = next(stopper_state.locations)
-        except StopIteration:
-            next_location = np.inf
-    else:
-        next_location = stopper_state.next_location
+    next_location = stopper_state.next_location
+    while t >= next_location:
+        next_location = next(stopper_state.locations, np.inf)
 
     if t + dt > next_location:
         dt = next_location - t
-- 
2.43.0


From 1d82fba3d36d4b77b3f5ef269a423a94a0e2a753 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:34:44 +0000
Subject: [PATCH 09/49] fix: record the step-size perturbation of accepted
 steps only

---
 src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
index 3818686..c8d1d06 100644
--- a/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
+++ b/src/probnum/diffeq/perturbed/step/_perturbedstepsolver.py
@@ -60,6 +60,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         self.perturb_step = perturb_step
         self.solver = solver
         self.scales = None
+        self._scale_of_last_attempt = None
         super().__init__(steprule=solver.steprule, order=solver.order)
 
     @classmethod
@@ -117,8 +118,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
         """
         noisy_step = self.perturb_step(self.rng, dt)
         new_state = self.solver.attempt_step(state, noisy_step)
-        scale = noisy_step / dt
-        self.scales.append(scale)
+        self._scale_of_last_attempt = noisy_step / dt
 
         t_new = state.t + dt
         state = _odesolver_state.ODESolverState(
@@ -132,6 +132,7 @@ class PerturbedStepSolver(_odesolver.ODESolver):
 
     def method_callback(self, state):
         """Call dense output after each step and store the interpolants."""
+        self.scales.append(self._scale_of_last_attempt)
         return self.solver.method_callback(state)
 
     def rvlist_to_odesol(self, times: np.ndarray, rvs: randvars._RandomVariableList):
-- 
2.43.0


From 83cd368fc67aeb6c79a29ae5f318ddd3aab36c7f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:34:44 +0000
Subject: [PATCH 10/49] fix: use the magnitude of the reference state in
 relative error tolerances

---
 src/probnum/diffeq/stepsize/_steprule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/stepsize/_steprule.py b/src/probnum/diffeq/stepsize/_steprule.py
index 5276de2..3b89b03 100644
--- a/src/probnum/diffeq/stepsize/_steprule.py
+++ b/src/probnum/diffeq/stepsize/_steprule.py
@@ -146,7 +146,7 @@ class AdaptiveSteps(StepRule):
         return scaled_error < 1
 
     def errorest_to_norm(self, errorest: ArrayLike, reference_state: np.ndarray):
-        tolerance = self.atol + self.rtol * reference_state
+        tolerance = self.atol + self.rtol * np.abs(reference_state)
         ratio = errorest / tolerance
         dim = len(ratio) if ratio.ndim > 0 else 1
         return np.linalg.norm(ratio) / np.sqrt(dim)
-- 
2.43.0


From f2e0fd73c382c1e567b7cdb04b09ee6e3a0342c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:34:44 +0000
Subject: [PATCH 11/49] fix: hand acquisition function objects, not classes, to
 the quadrature policies

---
 src/probnum/quad/solvers/_bayesian_quadrature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probnum/quad/solvers/_bayesian_quadrature.py b/src/probnum/quad/solvers/_bayesian_quadrature.py
index e9ea4ca..99b9299 100644
--- a/src/probnum/quad/solvers/_bayesian_quadrature.py
+++ b/src/probnum/quad/solvers/_bayesian_quadrature.py
@@ -212,9 +212,9 @@ class BayesianQuadrature:
 
         # Select policy
         acquisition_dict = dict(
-            mi=MutualInformation,
-            ivr=IntegralVarianceReduction,
-            us=WeightedPredictiveVariance,
+            mi=MutualInformation(),
+            ivr=IntegralVarianceReduction(),
+            us=WeightedPredictiveVariance(),
         )
         if policy is None:
             # If policy is None, this implies that the integration problem is defined
-- 
2.43.0


From 051f1e3a6c33040057bc30c18fc09fe4c10774aa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:34:44 +0000
Subject: [PATCH 12/49] fix: transform gain and forwarded state consistently in
 backward transitions of integrators

---
 src/probnum/randprocs/markov/integrator/_ioup.py   | 6 +++++-
 src/probnum/randprocs/markov/integrator/_iwp.py    | 7 ++++++-
 src/probnum/randprocs/markov/integrator/_matern.py | 6 +++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/integrator/_ioup.py b/src/probnum/randprocs/markov/integrator/_ioup.py
index e024c35..f08dba5 100644
--- a/src/probnum/randprocs/markov/integrator/_ioup.py
+++ b/src/probnum/randprocs/markov/integrator/_ioup.py
@@ -225,7 +225,7 @@ class IntegratedOrnsteinUhlenbeckTransition(
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
@@ -255,4 +255,8 @@ class IntegratedOrnsteinUhlenbeckTransition(
 
         # Undo preconditioning and return
         rv = _preconditioner.apply_precon(self.precon(dt), rv)
+        if info["rv_forwarded"] is not None:
+            info["rv_forwarded"] = _preconditioner.apply_precon(
+                self.precon(dt), info["rv_forwarded"]
+            )
         return rv, info
diff --git a/src/probnum/randprocs/markov/integrator/_iwp.py b/src/probnum/randprocs/markov/integrator/_iwp.py
index d2a0a33..189917d 100644
--- a/src/probnum/randprocs/markov/integrator/_iwp.py
+++ b/src/probnum/randprocs/markov/integrator/_iwp.py
@@ -263,7 +263,7 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
@@ -277,6 +277,11 @@ class IntegratedWienerTransition(_integrator.IntegratorTransition, continuous.LT
             _diffusion=_diffusion,
         )
 
+        if info["rv_forwarded"] is not None:
+            info["rv_forwarded"] = _preconditioner.apply_precon(
+                self.precon(dt), info["rv_forwarded"]
+            )
+
         return _preconditioner.apply_precon(self.precon(dt), rv), info
 
     def discretise(self, dt):
diff --git a/src/probnum/randprocs/markov/integrator/_matern.py b/src/probnum/randprocs/markov/integrator/_matern.py
index e8db12d..d98011b 100644
--- a/src/probnum/randprocs/markov/integrator/_matern.py
+++ b/src/probnum/randprocs/markov/integrator/_matern.py
@@ -228,7 +228,7 @@ class MaternTransition(_integrator.IntegratorTransition, continuous.LTISDE):
             else None
         )
         gain = (
-            self.precon.inverse(dt) @ gain @ self.precon.inverse(dt).T
+            self.precon.inverse(dt) @ gain @ self.precon(dt).T
             if gain is not None
             else None
         )
@@ -258,4 +258,8 @@ class MaternTransition(_integrator.IntegratorTransition, continuous.LTISDE):
 
         # Undo preconditioning and return
         rv = _preconditioner.apply_precon(self.precon(dt), rv)
+        if info["rv_forwarded"] is not None:
+            info["rv_forwarded"] = _preconditioner.apply_precon(
+                self.precon(dt), info["rv_forwarded"]
+            )
         return rv, info
-- 
2.43.0


From fd8314daa4f63ae63ff032f68990860bccafd1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:22 +0000
Subject: [PATCH 13/49] fix: sums and products of Scaling operators keep the
 promoted dtype

The result was cast to the dtype of the left operand, so that e.g.
Scaling(2, shape) + Scaling(0.5, shape) was truncated to Scaling(2, shape).
---
 src/probnum/linops/_scaling.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/probnum/linops/_scaling.py b/src/probnum/linops/_scaling.py
index 038b566..56fb577 100644
--- a/src/probnum/linops/_scaling.py
+++ b/src/probnum/linops/_scaling.py
@@ -212,9 +212,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors + other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors + other.factors, shape=self.shape)
 
     def _sub_scaling(self, other: "Scaling") -> "Scaling":
         if other.shape != self.shape:
@@ -223,9 +221,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors - other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors - other.factors, shape=self.shape)
 
     def _mul_scaling(self, other: "Scaling") -> "Scaling":
         if other.shape != self.shape:
@@ -234,9 +230,7 @@ class Scaling(_linear_operator.LambdaLinearOperator):
                 "possible if both operands have the same shape."
             )
 
-        return Scaling(
-            factors=self.factors * other.factors, shape=self.shape, dtype=self.dtype
-        )
+        return Scaling(factors=self.factors * other.factors, shape=self.shape)
 
     def _matmul_scaling(self, other: "Scaling") -> "Scaling":
         return self._mul_scaling(other)
-- 
2.43.0


From d6f8bd6eae7ebee6b2a2f4b3ad9fecaccfdfec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 14/49] fix: Embedding honours take_indices in its transpose
 and dense form

The transpose, the dense representation and the product with a Selection
ignored take_indices, so they described a different matrix than the
matrix-vector product.
---
 src/probnum/linops/_arithmetic.py      |  6 ++++--
 src/probnum/linops/_linear_operator.py | 21 +++++++++++++++------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/probnum/linops/_arithmetic.py b/src/probnum/linops/_arithmetic.py
index 00ec028..7a10f4e 100644
--- a/src/probnum/linops/_arithmetic.py
+++ b/src/probnum/linops/_arithmetic.py
@@ -319,8 +319,10 @@ def _matmul_selection_embedding(
     selection: Selection, embedding: Embedding
 ) -> Union[NotImplementedType, Identity]:
 
-    if (embedding.shape[-1] == selection.shape[-2]) and np.all(
-        selection.indices == embedding._put_indices
+    if (
+        (embedding.shape[-1] == selection.shape[-2])
+        and np.array_equal(selection.indices, embedding._put_indices)
+        and np.array_equal(embedding._take_indices, np.arange(embedding.shape[-1]))
     ):
         return Identity(shape=(selection.shape[-2], embedding.shape[-1]))
 
diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index c6b2806..7ce8f53 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1852,15 +1852,24 @@ class Embedding(LambdaLinearOperator):
             shape=shape,
             matmul=lambda x: _embedding_matmul(self, x),
             todense=self._todense,
-            transpose=lambda: Selection(
-                indices=put_indices,
-                shape=(self.shape[1], self.shape[0]),
-                dtype=self.dtype,
-            ),
+            transpose=self._embedding_transpose,
+        )
+
+    def _embedding_transpose(self):
+        order = np.argsort(self._take_indices)
+        take_indices = np.array(self._take_indices)[order]
+
+        if not np.array_equal(take_indices, np.arange(self.shape[1])):
+            return TransposedLinearOperator(self)
+
+        return Selection(
+            indices=np.array(self._put_indices)[order],
+            shape=(self.shape[1], self.shape[0]),
+            dtype=self.dtype,
         )
 
     def _todense(self):
-        return self.T.todense().T
+        return _embedding_matmul(self, np.eye(self.shape[1], self.shape[1]))
 
 
 def _embedding_matmul(embedding, M):
-- 
2.43.0


From 09d14d122d6617568e2af9c496021d9cea9241fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:41 +0000
Subject: [PATCH 15/49] fix: Cholesky factor of a transposed operator no longer
 recurses forever

---
 src/probnum/linops/_linear_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index 7ce8f53..e6b5ba4 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -1491,7 +1491,7 @@ class TransposedLinearOperator(LambdaLinearOperator):
         return f"Transpose of {self._linop}"
 
     def _cholesky(self, lower: bool = True) -> LinearOperator:
-        return super().cholesky(lower)
+        return super()._cholesky(lower)
 
 
 class _InverseLinearOperator(LambdaLinearOperator):
-- 
2.43.0


From 7132d2dbc6e26ea71e90bc83795ecee90ef86292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:15 +0000
Subject: [PATCH 16/49] fix: LTISDE.discretise no longer reverses the force
 vector

---
 src/probnum/randprocs/markov/continuous/_lti_sde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/markov/continuous/_lti_sde.py b/src/probnum/randprocs/markov/continuous/_lti_sde.py
index c90f325..5d951fe 100644
--- a/src/probnum/randprocs/markov/continuous/_lti_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_lti_sde.py
@@ -158,7 +158,9 @@ class LTISDE(_linear_sde.LinearSDE):
                 drift_matrix, dispersion_matrix, dt
             )
             proj = np.eye(self.state_dimension, 2 * self.state_dimension)
-            proj_rev = np.flip(proj, axis=1)
+            proj_rev = np.eye(
+                self.state_dimension, 2 * self.state_dimension, k=self.state_dimension
+            )
             ah = proj @ ah_stack @ proj.T
             sh = proj @ ah_stack @ proj_rev.T @ self.force_vector
             qh = proj @ qh_stack @ proj.T
-- 
2.43.0


From 08e90fd9912ee8056c56a94b6c5b3364ff7aac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:15 +0000
Subject: [PATCH 17/49] fix: cholesky_update handles first factors with fewer
 columns than rows

---
 src/probnum/utils/linalg/_cholesky_updates.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/probnum/utils/linalg/_cholesky_updates.py b/src/probnum/utils/linalg/_cholesky_updates.py
index cdca28c..b0a2632 100644
--- a/src/probnum/utils/linalg/_cholesky_updates.py
+++ b/src/probnum/utils/linalg/_cholesky_updates.py
@@ -69,11 +69,10 @@ def cholesky_update(
     upper_sqrtm = np.linalg.qr(stacked_up, mode="r")
     if S1.ndim == 1:
         lower_sqrtm = upper_sqrtm.T
-    elif S1.shape[0] <= S1.shape[1]:
-        lower_sqrtm = upper_sqrtm.T
     else:
+        # The factor has fewer than n columns if fewer than n rows were stacked.
         lower_sqrtm = np.zeros((S1.shape[0], S1.shape[0]))
-        lower_sqrtm[:, : -(S1.shape[0] - S1.shape[1])] = upper_sqrtm.T
+        lower_sqrtm[:, : upper_sqrtm.shape[0]] = upper_sqrtm.T
 
     return tril_to_positive_tril(lower_sqrtm)
 
-- 
2.43.0


From 64eb75559e4c8620023ca4bef749a41c099c9b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:15 +0000
Subject: [PATCH 18/49] fix: NonlinearGaussian.forward_realization scales the
 noise covariance by the diffusion

---
 src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py b/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
index c92cf05..28c6a08 100644
--- a/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
+++ b/src/probnum/randprocs/markov/discrete/_nonlinear_gaussian.py
@@ -66,8 +66,9 @@ class NonlinearGaussian(_transition.Transition):
         self, realization, t, compute_gain=False, _diffusion=1.0, **kwargs
     ):
         fun_eval = self.transition_fun(t, realization)
-        noise = _diffusion * self.noise_fun(t)
-        return fun_eval + noise, {}
+        noise = self.noise_fun(t)
+        centered_noise = np.sqrt(_diffusion) * (noise - noise.mean)
+        return fun_eval + noise.mean + centered_noise, {}
 
     def forward_rv(self, rv, t, compute_gain=False, _diffusion=1.0, **kwargs):
         raise NotImplementedError("Not available")
-- 
2.43.0


From aeb11cd7b1574c63dedb667db61ccb88c505b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:15 +0000
Subject: [PATCH 19/49] fix: square-root moment ODE keeps the sign of shrinking
 Cholesky columns

---
 src/probnum/randprocs/markov/continuous/_linear_sde.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/probnum/randprocs/markov/continuous/_linear_sde.py b/src/probnum/randprocs/markov/continuous/_linear_sde.py
index 2e7f611..bab7567 100644
--- a/src/probnum/randprocs/markov/continuous/_linear_sde.py
+++ b/src/probnum/randprocs/markov/continuous/_linear_sde.py
@@ -9,7 +9,6 @@ import scipy.linalg
 from probnum import randvars
 from probnum.randprocs.markov.continuous import _sde
 from probnum.typing import FloatLike, IntLike
-from probnum.utils.linalg import tril_to_positive_tril
 
 
 class LinearSDE(_sde.SDE):
@@ -394,8 +393,8 @@ class LinearSDE(_sde.SDE):
             )
             M = G_bar + G_bar.T + L_bar @ L_bar.T
 
-            new_cov_cholesky = tril_to_positive_tril(
-                cov_cholesky @ (np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M)))
+            new_cov_cholesky = cov_cholesky @ (
+                np.tril(M, -1) + 1 / 2 * np.diag(np.diag(M))
             )
 
             # Vectorize outcome
-- 
2.43.0


From fb1dddbfbf0ef01e711c8f2c34eab98c9fcddfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:20 +0000
Subject: [PATCH 20/49] fix: several samples of a Normal with a single entry

---
 src/probnum/randvars/_normal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index cdc428a..2301e51 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -484,7 +484,10 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             random_state=rng,
         )
 
-        return sample.reshape(sample.shape[:-1] + self.shape)
+        # `rvs` drops all axes of length one, which may include the event axes.
+        sample_axes = tuple(axis for axis in size if axis != 1)
+
+        return sample.reshape(sample_axes + self.shape)
 
     @staticmethod
     def _arg_todense(x: Union[np.ndarray, linops.LinearOperator]) -> np.ndarray:
-- 
2.43.0


From d2b257afa0066f3f902cf1e776b1160a906327f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:59 +0000
Subject: [PATCH 21/49] fix: symmetric-Kronecker Normal samples have the
 requested size

---
 src/probnum/randvars/_normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 2301e51..52399b6 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -595,7 +595,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         n = self.mean.shape[1]
 
         # Draw standard normal samples
-        size_sample = (n * n,) + size
+        size_sample = (n * n, int(np.prod(size)))
 
         stdnormal_samples = scipy.stats.norm.rvs(size=size_sample, random_state=rng)
 
@@ -603,4 +603,4 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         samples_scaled = linops.Symmetrize(n) @ (self.cov_cholesky @ stdnormal_samples)
 
         # TODO: can we avoid todense here and just return operator samples?
-        return self.dense_mean[None, :, :] + samples_scaled.T.reshape(-1, n, n)
+        return self.dense_mean + samples_scaled.T.reshape(size + (n, n))
-- 
2.43.0


From eaa69d05309067dca3790b6798cff19e42461669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:24 +0000
Subject: [PATCH 22/49] fix: Categorical.pmf handles array-valued and repeated
 events

---
 src/probnum/randvars/_categorical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randvars/_categorical.py b/src/probnum/randvars/_categorical.py
index a669556..08bafea 100644
--- a/src/probnum/randvars/_categorical.py
+++ b/src/probnum/randvars/_categorical.py
@@ -67,8 +67,10 @@ class Categorical(DiscreteRandomVariable):
                     "support."
                 )
 
-            mask = (x == self.support).nonzero()[0]
-            return self.probabilities[mask][0] if len(mask) > 0 else 0.0
+            # An event can be an array, and may be listed more than once.
+            event_axes = tuple(range(1, self.support.ndim))
+            mask = np.all(x == self.support, axis=event_axes)
+            return np.sum(self.probabilities[mask])
 
         def _mode_categorical():
             mask = np.argmax(self.probabilities)
-- 
2.43.0


From 084230642097b6e43c5734710f8a24af20e9fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:19 +0000
Subject: [PATCH 23/49] fix: products of a vector and a Normal give covariance
 and Cholesky factor the shape of the result

---
 src/probnum/randvars/_arithmetic.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/probnum/randvars/_arithmetic.py b/src/probnum/randvars/_arithmetic.py
index 1ea2390..36d9810 100644
--- a/src/probnum/randvars/_arithmetic.py
+++ b/src/probnum/randvars/_arithmetic.py
@@ -293,6 +293,8 @@ def _matmul_normal_constant(norm_rv: _Normal, constant_rv: _Constant) -> _Normal
 
         if cov.shape == () and mean.shape == (1,):
             cov = cov.reshape((1, 1))
+        if cov.shape == () and cov_cholesky is not None:
+            cov_cholesky = cov_cholesky.reshape(())
 
         return _Normal(mean=mean, cov=cov, cov_cholesky=cov_cholesky)
 
@@ -332,11 +334,16 @@ def _matmul_constant_normal(constant_rv: _Constant, norm_rv: _Normal) -> _Normal
             )
         else:
             cov_cholesky = None
-        return _Normal(
-            mean=constant_rv.support @ norm_rv.mean,
-            cov=constant_rv.support @ (norm_rv.cov @ constant_rv.support.T),
-            cov_cholesky=cov_cholesky,
-        )
+
+        mean = constant_rv.support @ norm_rv.mean
+        cov = constant_rv.support @ (norm_rv.cov @ constant_rv.support.T)
+
+        if cov.shape == () and mean.shape == (1,):
+            cov = cov.reshape((1, 1))
+        if cov.shape == () and cov_cholesky is not None:
+            cov_cholesky = cov_cholesky.reshape(())
+
+        return _Normal(mean=mean, cov=cov, cov_cholesky=cov_cholesky)
 
     # This part does not do the Cholesky update,
     # because of performance configurations: currently, there is no way of switching
-- 
2.43.0


From f40322e99f21fd38ddddf1f43e33e4f998516800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:50 +0000
Subject: [PATCH 24/49] fix: indexing and transposing a random variable act on
 each draw and on the covariance

---
 src/probnum/randvars/_random_variable.py | 27 ++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_random_variable.py b/src/probnum/randvars/_random_variable.py
index da3e0dd..bffec01 100644
--- a/src/probnum/randvars/_random_variable.py
+++ b/src/probnum/randvars/_random_variable.py
@@ -524,15 +524,19 @@ class RandomVariable(Generic[ValueType]):
         return quantile
 
     def __getitem__(self, key: ArrayIndicesLike) -> "RandomVariable":
+        if not isinstance(key, tuple):
+            key = (key,)
+
         return RandomVariable(
             shape=np.empty(shape=self.shape)[key].shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size)[key],
+            sample=lambda rng, size: self.sample(rng, size)[
+                (slice(None),) * len(size) + key
+            ],
             mode=lambda: self.mode[key],
             mean=lambda: self.mean[key],
             var=lambda: self.var[key],
             std=lambda: self.std[key],
-            entropy=lambda: self.entropy,
             as_value_type=self.__as_value_type,
         )
 
@@ -569,14 +573,29 @@ class RandomVariable(Generic[ValueType]):
         axes :
             See documentation of :meth:`numpy.ndarray.transpose`.
         """
+        if len(axes) == 1 and isinstance(axes[0], tuple):
+            axes = axes[0]
+        elif (len(axes) == 1 and axes[0] is None) or len(axes) == 0:
+            axes = tuple(reversed(range(self.ndim)))
+        axes = tuple(axis % self.ndim for axis in axes)
+
+        def transposed_cov():
+            if self.ndim < 2:
+                return self.cov
+            cov_axes = axes + tuple(self.ndim + axis for axis in axes)
+            cov = self.cov.reshape(self.shape + self.shape).transpose(*cov_axes)
+            return cov.reshape(self.size, self.size)
+
         return RandomVariable(
             shape=np.empty(shape=self.shape).transpose(*axes).shape,
             dtype=self.dtype,
-            sample=lambda rng, size: self.sample(rng, size).transpose(*axes),
+            sample=lambda rng, size: self.sample(rng, size).transpose(
+                *range(len(size)), *(len(size) + axis for axis in axes)
+            ),
             mode=lambda: self.mode.transpose(*axes),
             median=lambda: self.median.transpose(*axes),
             mean=lambda: self.mean.transpose(*axes),
-            cov=lambda: self.cov,
+            cov=transposed_cov,
             var=lambda: self.var.transpose(*axes),
             std=lambda: self.std.transpose(*axes),
             entropy=lambda: self.entropy,
-- 
2.43.0


From c7bc1ebabdd2dc2783a1aaa62b0368e3059b7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:52 +0000
Subject: [PATCH 25/49] fix: Normal.transpose with negative axes permutes the
 covariance like the mean

---
 src/probnum/randvars/_normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 52399b6..10a96a1 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -344,6 +344,7 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
             axes = axes[0]
         elif (len(axes) == 1 and axes[0] is None) or len(axes) == 0:
             axes = tuple(reversed(range(self.ndim)))
+        axes = tuple(axis % self.ndim for axis in axes)
 
         mean_t = self.dense_mean.transpose(*axes).copy()
 
-- 
2.43.0


From 40074e5a7f01392aa5fdc4b80662f28db0d8d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:42 +0000
Subject: [PATCH 26/49] fix: partial indices of a matrix-variate Normal select
 the matching covariance block

---
 src/probnum/randvars/_normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/probnum/randvars/_normal.py b/src/probnum/randvars/_normal.py
index 10a96a1..0a28bb5 100644
--- a/src/probnum/randvars/_normal.py
+++ b/src/probnum/randvars/_normal.py
@@ -309,11 +309,11 @@ class Normal(_random_variable.ContinuousRandomVariable[ValueType]):
         mean = self.dense_mean[key]
 
         # Select submatrix from covariance matrix
-        cov = self.dense_cov.reshape(self.shape + self.shape)
-        cov = cov[key][(...,) + key]
+        indices = np.ravel(np.arange(self.size).reshape(self.shape)[key])
+        cov = self.dense_cov.reshape(self.size, self.size)[np.ix_(indices, indices)]
 
-        if mean.ndim > 0:
-            cov = cov.reshape(mean.size, mean.size)
+        if mean.ndim == 0:
+            cov = cov[0, 0]
 
         return Normal(
             mean=mean,
-- 
2.43.0


From 540f9ae3b0426c9b50c1effb63ddd4ddc59f7007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:37 +0000
Subject: [PATCH 27/49] fix: ODE filter update evaluates time-dependent vector
 fields at the new time

---
 src/probnum/diffeq/odefilter/_odefilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 986173d..40cd706 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -334,7 +334,7 @@ class ODEFilter(_odesolver.ODESolver):
         gain = scipy.linalg.cho_solve((meas_rv.cov_cholesky, True), crosscov.T).T
         zero_data = np.zeros(meas_rv.mean.shape)
         filt_rv, _ = self.measurement_model.backward_realization(
-            zero_data, pred_rv, rv_forwarded=meas_rv, gain=gain
+            zero_data, pred_rv, t=state.t + dt, rv_forwarded=meas_rv, gain=gain
         )
 
         t_new = state.t + dt
-- 
2.43.0


From 5c6160f1d28d184feafeaa57ff95b2530461c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:37 +0000
Subject: [PATCH 28/49] fix: piecewise constant diffusions are attached to the
 step they were estimated on

---
 src/probnum/diffeq/odefilter/_odefilter.py       |  2 +-
 .../randprocs/markov/continuous/_diffusions.py   | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 40cd706..58ed134 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -288,7 +288,7 @@ class ODEFilter(_odesolver.ODESolver):
 
         # Now we can be certain that the step will be accepted. In this case
         # we update the diffusion model and continue the rest of the iteration.,
-        self.diffusion_model.update_in_place(local_diffusion, t=state.t)
+        self.diffusion_model.update_in_place(local_diffusion, t=state.t + dt)
 
         if self._calibrate_at_each_step:
             # With the updated diffusion, we need to re-compute the covariances of the
diff --git a/src/probnum/randprocs/markov/continuous/_diffusions.py b/src/probnum/randprocs/markov/continuous/_diffusions.py
index ee677e7..37ad2dc 100644
--- a/src/probnum/randprocs/markov/continuous/_diffusions.py
+++ b/src/probnum/randprocs/markov/continuous/_diffusions.py
@@ -102,16 +102,16 @@ class PiecewiseConstantDiffusion(Diffusion):
     .. math::
         \sigma(t) = \left\{
         \begin{array}{ll}
-        \sigma_1 & \text{ if } t < t_0\\
-        \sigma_n & \text{ if } t_{n-1} \leq t < t_{n}, ~n=1, ..., N\\
-        \sigma_N & \text{ if } t_{N} \leq t\\
+        \sigma_1 & \text{ if } t \leq t_0\\
+        \sigma_n & \text{ if } t_{n-1} < t \leq t_{n}, ~n=1, ..., N\\
+        \sigma_N & \text{ if } t_{N} < t\\
         \end{array}
         \right.
 
-    In other words, a tuple :math:`(t, \sigma)` always defines the diffusion *right* of
-    :math:`t` as :math:`\sigma` (including the point :math:`t`), except for the very
-    first tuple :math:`(t_0, \sigma_0)` which *also* defines the diffusion *left* of
-    :math:`t`. This choice of piecewise constant function is continuous from the right.
+    In other words, a tuple :math:`(t_n, \sigma_n)` always defines the diffusion *left*
+    of :math:`t_n` as :math:`\sigma_n` (including the point :math:`t_n`), except for the
+    very last tuple :math:`(t_N, \sigma_N)` which *also* defines the diffusion *right* of
+    :math:`t_N`. This choice of piecewise constant function is continuous from the left.
 
     Parameters
     ----------
@@ -142,7 +142,7 @@ class PiecewiseConstantDiffusion(Diffusion):
         # The "-1" in here makes up for the fact that the locations contains one more
         # element than the diffusions.
         indices = np.searchsorted(self.locations, t) - 1
-        indices[t < self.t0] = 0
+        indices[t <= self.t0] = 0
         indices[t > self.tmax] = -1
 
         if t_has_been_promoted:
-- 
2.43.0


From 20d8c9e4f89e6f09fc91d9c0ed80479ce2182631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:37 +0000
Subject: [PATCH 29/49] fix: smoothing posterior interpolates and samples with
 the diffusion of the interval

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 79eddf7..5ae8d2f 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -196,10 +196,9 @@ class SmoothingPosterior(KalmanPosterior):
         # This block avoids calling self.diffusion_model, because we do not want
         # to search the full index set -- we already know the index!
         # This is the reason that `Diffusion` objects implement a __getitem__.
-        # The usual diffusion-index is the next index
-        # ('Diffusion's include the right-hand side gridpoint!),
-        # but if we are right of the domain, the previous_index matters.
-        diffusion_index = next_index if next_index is not None else previous_index
+        # The i-th diffusion belongs to the interval between the i-th and the (i+1)-th
+        # location, which is why the previous index is the diffusion-index.
+        diffusion_index = previous_index if previous_index is not None else next_index
         if diffusion_index >= len(self.locations) - 1:
             diffusion_index = -1
         if self.diffusion_model_has_been_provided:
@@ -299,7 +298,9 @@ class SmoothingPosterior(KalmanPosterior):
         # Find locations of the diffusions, which amounts to finding the locations
         # of the grid points in t (think: `all_locations`),
         # which is done via np.searchsorted:
-        diffusion_indices = np.searchsorted(self.locations[:-2], t[1:])
+        # (the i-th diffusion belongs to the interval between the i-th and the (i+1)-th
+        # location, including the right-hand side; the last one is used for extrapolation)
+        diffusion_indices = np.searchsorted(self.locations[1:-1], t[1:])
         if self.diffusion_model_has_been_provided:
             squared_diffusion_list = self.diffusion_model[diffusion_indices]
         else:
-- 
2.43.0


From a61cb48734b06f5dec728a8fc3f532e75284ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:22 +0000
Subject: [PATCH 30/49] fix: ODE filter smooths the calibrated states when a
 constant diffusion is estimated

---
 src/probnum/diffeq/odefilter/_odefilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/diffeq/odefilter/_odefilter.py b/src/probnum/diffeq/odefilter/_odefilter.py
index 58ed134..dffa698 100644
--- a/src/probnum/diffeq/odefilter/_odefilter.py
+++ b/src/probnum/diffeq/odefilter/_odefilter.py
@@ -390,7 +390,9 @@ class ODEFilter(_odesolver.ODESolver):
 
             squared_diffusion_list = self.diffusion_model(locations[1:])
             rv_list = self.prior_process.transition.smooth_list(
-                rv_list, locations, _diffusion_list=squared_diffusion_list
+                kalman_posterior.states,
+                locations,
+                _diffusion_list=squared_diffusion_list,
             )
             kalman_posterior = filtsmooth.gaussian.SmoothingPosterior(
                 filtering_posterior=kalman_posterior,
-- 
2.43.0


From 2d69cbc4b1f28f8ba3370c3a6a641b955244f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:22 +0000
Subject: [PATCH 31/49] fix: smoothing posterior interpolates from the
 filtering distribution

---
 src/probnum/filtsmooth/gaussian/_kalmanposterior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
index 5ae8d2f..d707a3a 100644
--- a/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
+++ b/src/probnum/filtsmooth/gaussian/_kalmanposterior.py
@@ -235,7 +235,9 @@ class SmoothingPosterior(KalmanPosterior):
             return extrapolated_rv_right
 
         # Final case: we are interpolating. Both locations are not None.
-        # In this case, filter from the the left to the middle point;
+        # In this case, filter from the the left to the middle point
+        # (starting at the filtering distribution, because the smoothing distribution
+        # depends on the data to the right of the middle point already);
         # And compute a smoothing update from the middle to the RHS point.
         if np.abs(previous_index - next_index) > 1.1:
             raise ValueError
@@ -244,7 +246,7 @@ class SmoothingPosterior(KalmanPosterior):
         assert dt_left > 0.0
         assert dt_right > 0.0
         filtered_rv, _ = self.transition.forward_rv(
-            rv=previous_state,
+            rv=self.filtering_posterior.states[previous_index],
             t=previous_location,
             dt=dt_left,
             _diffusion=squared_diffusion,
-- 
2.43.0


From 54a0e835524285d3707f1ac492fbdbfe99b3c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:22 +0000
Subject: [PATCH 32/49] fix: Kalman filter evaluates time-dependent models at
 the time of the step

---
 src/probnum/filtsmooth/gaussian/_kalman.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/probnum/filtsmooth/gaussian/_kalman.py b/src/probnum/filtsmooth/gaussian/_kalman.py
index 45869e4..c0fdeed 100644
--- a/src/probnum/filtsmooth/gaussian/_kalman.py
+++ b/src/probnum/filtsmooth/gaussian/_kalman.py
@@ -271,7 +271,7 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                     None if _previous_posterior is None else _previous_posterior(t_old)
                 )
                 output = self.prior_process.transition.forward_rv(
-                    curr_rv, t, dt=dt, _linearise_at=linearise_predict_at
+                    curr_rv, t_old, dt=dt, _linearise_at=linearise_predict_at
                 )
                 curr_rv, info_dict["predict_info"] = output
 
@@ -280,7 +280,10 @@ class Kalman(_bayesfiltsmooth.BayesFiltSmooth):
                 None if _previous_posterior is None else _previous_posterior(t)
             )
             curr_rv, info_dict["update_info"] = measmod.backward_realization(
-                realization_obtained=data, rv=curr_rv, _linearise_at=linearise_update_at
+                realization_obtained=data,
+                rv=curr_rv,
+                t=t,
+                _linearise_at=linearise_update_at,
             )
 
             yield t, curr_rv, info_dict
-- 
2.43.0


From 08a960bf8c2056bb78aa566e19c5ef88a175c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:22 +0000
Subject: [PATCH 33/49] fix: bootstrap particle filter keeps the weights of
 earlier observations

---
 src/probnum/filtsmooth/particle/_importance_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/particle/_importance_distributions.py b/src/probnum/filtsmooth/particle/_importance_distributions.py
index 954f82d..2b60248 100644
--- a/src/probnum/filtsmooth/particle/_importance_distributions.py
+++ b/src/probnum/filtsmooth/particle/_importance_distributions.py
@@ -65,7 +65,7 @@ class BootstrapImportanceDistribution(ImportanceDistribution):
     def log_correction_factor(
         self, proposal_state, importance_rv, dynamics_rv, old_weight
     ) -> float:
-        return 0.0
+        return np.log(old_weight + 1e-14)
 
 
 class LinearizationImportanceDistribution(ImportanceDistribution):
-- 
2.43.0


From b5b7fd670f3f8b3484267472d560a9d35e204f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:22 +0000
Subject: [PATCH 34/49] fix: particle filter continues from the resampled
 particles

---
 src/probnum/filtsmooth/particle/_particle_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/filtsmooth/particle/_particle_filter.py b/src/probnum/filtsmooth/particle/_particle_filter.py
index c57ea6e..4509de3 100644
--- a/src/probnum/filtsmooth/particle/_particle_filter.py
+++ b/src/probnum/filtsmooth/particle/_particle_filter.py
@@ -216,6 +216,7 @@ class ParticleFilter(_bayesfiltsmooth.BayesFiltSmooth):
                 N = effective_number_of_events(new_rv)
                 if N < self.min_effective_num_of_particles:
                     new_rv = new_rv.resample(rng=self.rng)
+                    particles, weights = new_rv.support, new_rv.probabilities
             yield new_rv, {}
             t_old = t
 
-- 
2.43.0


From 7a21ab637fe23b843ec2c33685ba6488123d1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:17 +0000
Subject: [PATCH 35/49] fix: white noise kernel keeps its variance for
 whole-number inputs

---
 src/probnum/randprocs/covfuncs/_white_noise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/randprocs/covfuncs/_white_noise.py b/src/probnum/randprocs/covfuncs/_white_noise.py
index ae5377c..b5db4e0 100644
--- a/src/probnum/randprocs/covfuncs/_white_noise.py
+++ b/src/probnum/randprocs/covfuncs/_white_noise.py
@@ -40,6 +40,7 @@ class WhiteNoise(CovarianceFunction):
             return np.full_like(  # pylint: disable=unexpected-keyword-arg
                 x0,
                 self.sigma_sq,
+                dtype=np.result_type(x0, self.sigma_sq),
                 shape=x0.shape[: x0.ndim - self.input_ndim],
             )
 
-- 
2.43.0


From c760623225c5ac8fd962ab34b936f5ed3103fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:17 +0000
Subject: [PATCH 36/49] fix: scaled distances between whole-number inputs

---
 src/probnum/randprocs/covfuncs/_covariance_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_function.py b/src/probnum/randprocs/covfuncs/_covariance_function.py
index 77898ec..bc937fc 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_function.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_function.py
@@ -774,7 +774,7 @@ class IsotropicMixin(abc.ABC):  # pylint: disable=too-few-public-methods
         sqdiffs = x0 - x1
 
         if scale_factors is not None:
-            sqdiffs *= scale_factors
+            sqdiffs = sqdiffs * scale_factors
 
         sqdiffs *= sqdiffs
 
-- 
2.43.0


From f71ca35cd957a50f45ff59a62ae5ea748756e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:17 +0000
Subject: [PATCH 37/49] fix: kernel operators reshape their points with the
 shape of the respective argument

---
 src/probnum/randprocs/covfuncs/_covariance_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/randprocs/covfuncs/_covariance_function.py b/src/probnum/randprocs/covfuncs/_covariance_function.py
index bc937fc..dfa8633 100644
--- a/src/probnum/randprocs/covfuncs/_covariance_function.py
+++ b/src/probnum/randprocs/covfuncs/_covariance_function.py
@@ -686,11 +686,11 @@ class CovarianceFunction(abc.ABC):
         ):
             raise ValueError(
                 f"The shape of `x{argnum}` must must match `input_shape_{argnum}`, "
-                f"i.e. `{self.input_shape}`, of the covariance function along its "
+                f"i.e. `{input_shape}`, of the covariance function along its "
                 f"trailing dimensions, but an array with shape `{x.shape}` was given."
             )
 
-        return x.reshape((-1,) + self.input_shape, order="C")
+        return x.reshape((-1,) + input_shape, order="C")
 
     def _euclidean_inner_products(
         self, x0: np.ndarray, x1: Optional[np.ndarray]
-- 
2.43.0


From b9019ca0bdef9d372942d2ff1c470be0e3ea4e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:17 +0000
Subject: [PATCH 38/49] fix: order the covariance of a vector-valued Gaussian
 process like its mean

---
 src/probnum/randprocs/_gaussian_process.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/probnum/randprocs/_gaussian_process.py b/src/probnum/randprocs/_gaussian_process.py
index aea560d..19cb4c8 100644
--- a/src/probnum/randprocs/_gaussian_process.py
+++ b/src/probnum/randprocs/_gaussian_process.py
@@ -73,7 +73,20 @@ class GaussianProcess(_random_process.RandomProcess[ArrayLike, np.ndarray]):
         )
 
     def __call__(self, args: ArrayLike) -> randvars.Normal:
+        cov = self.cov.matrix(args)
+
+        if self._output_ndim > 0:
+            # The rows and columns of the matrix are ordered by the output dimension
+            # first, the entries of the mean by the input point first.
+            output_dim = self._output_shape[0]
+            num_points = cov.shape[0] // output_dim
+
+            cov = np.transpose(
+                cov.reshape((output_dim, num_points, output_dim, num_points)),
+                (1, 0, 3, 2),
+            ).reshape(cov.shape)
+
         return randvars.Normal(
             mean=np.array(self.mean(args), copy=False),  # pylint: disable=not-callable
-            cov=self.cov.matrix(args),
+            cov=cov,
         )
-- 
2.43.0


From 126c8be8b76b799c55f227088fa855d68ca0bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:17 +0000
Subject: [PATCH 39/49] fix: belief returned after exactly one iteration of the
 matrix-based linear solver

---
 src/probnum/linalg/solvers/matrixbased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/matrixbased.py b/src/probnum/linalg/solvers/matrixbased.py
index cbc5f36..d51d3bc 100644
--- a/src/probnum/linalg/solvers/matrixbased.py
+++ b/src/probnum/linalg/solvers/matrixbased.py
@@ -656,7 +656,7 @@ class SymmetricMatrixBasedSolver(MatrixBasedSolver):
         """Return output random variables x, A, Ainv from their means and
         covariances."""
 
-        if self.iter_ > 0:
+        if len(Y_list) > 0:
             # Observations and inner products in A-space between actions
             Y = np.hstack(Y_list)
             sy = np.vstack(sy_list).ravel()
-- 
2.43.0


From fc1b5d0e5e063caa711915980278c9ce05705e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:17 +0000
Subject: [PATCH 40/49] fix: row-norm sampling probabilities use the rows of
 the system matrix

---
 src/probnum/linalg/solvers/policies/_random_unit_vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probnum/linalg/solvers/policies/_random_unit_vector.py b/src/probnum/linalg/solvers/policies/_random_unit_vector.py
index f183c48..f315337 100644
--- a/src/probnum/linalg/solvers/policies/_random_unit_vector.py
+++ b/src/probnum/linalg/solvers/policies/_random_unit_vector.py
@@ -45,7 +45,9 @@ class RandomUnitVectorPolicy(_linear_solver_policy.LinearSolverPolicy):
             if self.probabilities == "uniform":
                 solver_state.cache["row_sample_probs"] = np.ones(nrows) / nrows
             elif self.probabilities == "rownorm":
-                sampling_probs = (solver_state.problem.A**2).T @ np.ones(shape=nrows)
+                sampling_probs = (solver_state.problem.A**2) @ np.ones(
+                    shape=solver_state.problem.A.shape[1]
+                )
                 solver_state.cache["row_sample_probs"] = (
                     sampling_probs / sampling_probs.sum()
                 )
-- 
2.43.0


From e08f1e498ac34a20e0ed8a6e4af6afff42468bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:31 +0000
Subject: [PATCH 41/49] fix: Gaussian moments in the reference value of
 sum_polynomials

---
 src/probnum/problems/zoo/quad/_quadproblems_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
index bf85339..4a8169e 100644
--- a/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
+++ b/src/probnum/problems/zoo/quad/_quadproblems_gaussian.py
@@ -218,7 +218,7 @@ def sum_polynomials(
     # Return function values as a 2d array with one column.
     delta = (np.remainder(b, 2) - 1) ** 2
     doublefact = special.factorial2(b - 1)
-    solution = np.sum(np.prod(a * delta * (var**b) * doublefact, axis=1))
+    solution = np.sum(np.prod(a * delta * (var ** (b / 2)) * doublefact, axis=1))
     if isinstance(var, float):
         mean = 0.0
     else:
-- 
2.43.0


From 8077e354e49f60d7aac4f1e8346016802151ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:32 +0000
Subject: [PATCH 42/49] fix: exact solution of the logistic problem for a
 non-zero initial time

---
 src/probnum/problems/zoo/diffeq/_ivp_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/probnum/problems/zoo/diffeq/_ivp_examples.py b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
index 922ee7b..aa60d51 100644
--- a/src/probnum/problems/zoo/diffeq/_ivp_examples.py
+++ b/src/probnum/problems/zoo/diffeq/_ivp_examples.py
@@ -251,8 +251,8 @@ def logistic(t0=0.0, tmax=2.0, y0=None, params=(3.0, 1.0)):
 
     def sol(t):
         l0, l1 = params
-        nomin = l1 * y0 * np.exp(l0 * t)
-        denom = l1 + y0 * (np.exp(l0 * t) - 1)
+        nomin = l1 * y0 * np.exp(l0 * (t - t0))
+        denom = l1 + y0 * (np.exp(l0 * (t - t0)) - 1)
         return nomin / denom
 
     return InitialValueProblem(
-- 
2.43.0


From 81c7cf6588faff75859f31ed36d44acf015e854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:29 +0000
Subject: [PATCH 43/49] fix: relative tolerance of the filtering stopping
 criterion uses the magnitude of the reference

---
 src/probnum/filtsmooth/optim/_stopping_criterion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/optim/_stopping_criterion.py b/src/probnum/filtsmooth/optim/_stopping_criterion.py
index 491e630..def0167 100644
--- a/src/probnum/filtsmooth/optim/_stopping_criterion.py
+++ b/src/probnum/filtsmooth/optim/_stopping_criterion.py
@@ -33,6 +33,6 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
 
     def evaluate_error(self, error, reference):
         """Compute the normalised error."""
-        normalisation = self.atol + self.rtol * reference
+        normalisation = self.atol + self.rtol * np.abs(reference)
         magnitude = np.sqrt(np.mean((error / normalisation) ** 2))
         return magnitude
-- 
2.43.0


From c293e2c7d262e440ab3bd21e3d39a4c3bbbfae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:29 +0000
Subject: [PATCH 44/49] fix: filtering stopping criterion can be reused after
 it gave up

---
 src/probnum/filtsmooth/optim/_stopping_criterion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/probnum/filtsmooth/optim/_stopping_criterion.py b/src/probnum/filtsmooth/optim/_stopping_criterion.py
index def0167..6d8da3b 100644
--- a/src/probnum/filtsmooth/optim/_stopping_criterion.py
+++ b/src/probnum/filtsmooth/optim/_stopping_criterion.py
@@ -22,6 +22,7 @@ class FiltSmoothStoppingCriterion(StoppingCriterion):
         maximum number of iterations is reached.
         """
         if self.iterations > self.maxit:
+            self.iterations = 0
             errormsg = f"Maximum number of iterations (N={self.maxit}) reached."
             raise RuntimeError(errormsg)
         magnitude = self.evaluate_error(error=error, reference=reference)
-- 
2.43.0


From ba3a0866810d844ffb2eb728b2703d99fd51f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:29 +0000
Subject: [PATCH 45/49] fix: DiscreteUKFComponent.dimension read an attribute
 that does not exist

---
 src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py b/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py
index 92a2a60..17f1fd0 100644
--- a/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py
+++ b/src/probnum/filtsmooth/gaussian/approx/_unscentedkalman.py
@@ -39,7 +39,7 @@ class DiscreteUKFComponent(
     @property
     def dimension(self) -> int:
         """Dimension of the state-space associated with the UKF."""
-        return self.ut.dimension
+        return self.non_linear_model.input_dim
 
     def linearize(
         self, t, at_this_rv: randvars.RandomVariable
-- 
2.43.0


From d4a65779e97d261bfe1b6957e339fd0cedfec610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:29 +0000
Subject: [PATCH 46/49] fix: ODE measurements of the regression problem have
 zero-mean noise

---
 src/probnum/diffeq/odefilter/utils/_problem_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/probnum/diffeq/odefilter/utils/_problem_utils.py b/src/probnum/diffeq/odefilter/utils/_problem_utils.py
index a396b56..fd9ec59 100644
--- a/src/probnum/diffeq/odefilter/utils/_problem_utils.py
+++ b/src/probnum/diffeq/odefilter/utils/_problem_utils.py
@@ -117,16 +117,21 @@ def _construct_measurement_models_gaussian_likelihood(
     """Construct measurement models for the IVP with Gaussian likelihoods."""
     diff = ode_measurement_variance * np.eye(ode_information_operator.output_dim)
     diff_cholesky = np.sqrt(diff)
-    noise = randvars.Normal(mean=shift_vector, cov=diff, cov_cholesky=diff_cholesky)
+    noise_initial_condition = randvars.Normal(
+        mean=shift_vector, cov=diff, cov_cholesky=diff_cholesky
+    )
+    noise_ode = randvars.Normal(
+        mean=np.zeros_like(shift_vector), cov=diff, cov_cholesky=diff_cholesky
+    )
 
     measmod_initial_condition = randprocs.markov.discrete.LTIGaussian(
         transition_matrix=transition_matrix,
-        noise=noise,
+        noise=noise_initial_condition,
     )
     if approx_strategy is not None:
         ode_information_operator = approx_strategy(ode_information_operator)
     measmod_ode = ode_information_operator.as_transition(
-        noise_fun=lambda t: noise,
+        noise_fun=lambda t: noise_ode,
     )
 
     return measmod_initial_condition, measmod_ode
-- 
2.43.0


From 45f88201171c2dc60a2ab4e3cbb62d33137f6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 47/49] fix: block-diagonal operators infer matrix properties
 from square blocks only

---
 src/probnum/linops/_block.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/probnum/linops/_block.py b/src/probnum/linops/_block.py
index 3addc77..8ed4289 100644
--- a/src/probnum/linops/_block.py
+++ b/src/probnum/linops/_block.py
@@ -50,16 +50,18 @@ class BlockDiagonalMatrix(_linear_operator.LinearOperator):
 
         self._blocks = blocks
 
-        self.is_symmetric = self._infer_property(lambda block: block.is_symmetric)
-        self.is_positive_definite = self._infer_property(
-            lambda block: block.is_positive_definite
-        )
-        self.is_upper_triangular = self._infer_property(
-            lambda block: block.is_upper_triangular
-        )
-        self.is_lower_triangular = self._infer_property(
-            lambda block: block.is_lower_triangular
-        )
+        # The diagonals of the blocks lie on the diagonal only if all blocks are square
+        if self._all_blocks_square:
+            self.is_symmetric = self._infer_property(lambda block: block.is_symmetric)
+            self.is_positive_definite = self._infer_property(
+                lambda block: block.is_positive_definite
+            )
+            self.is_upper_triangular = self._infer_property(
+                lambda block: block.is_upper_triangular
+            )
+            self.is_lower_triangular = self._infer_property(
+                lambda block: block.is_lower_triangular
+            )
 
     @property
     def blocks(self) -> tuple[_linear_operator.LinearOperator]:
-- 
2.43.0


From cff083ac5060432577f2565b7ce9bf9b5de57088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 48/49] fix: an operator scaled by zero no longer states the
 factor's missing properties

---
 src/probnum/linops/_arithmetic_fallbacks.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/probnum/linops/_arithmetic_fallbacks.py b/src/probnum/linops/_arithmetic_fallbacks.py
index 0b05771..ad1bc45 100644
--- a/src/probnum/linops/_arithmetic_fallbacks.py
+++ b/src/probnum/linops/_arithmetic_fallbacks.py
@@ -44,9 +44,15 @@ class ScaledLinearOperator(LambdaLinearOperator):
         )
 
         # Matrix properties
-        self.is_symmetric = self._linop.is_symmetric
-        self.is_lower_triangular = self._linop.is_lower_triangular
-        self.is_upper_triangular = self._linop.is_upper_triangular
+        if self._scalar != 0:
+            self.is_symmetric = self._linop.is_symmetric
+            self.is_lower_triangular = self._linop.is_lower_triangular
+            self.is_upper_triangular = self._linop.is_upper_triangular
+        else:
+            if self.is_square:
+                self.is_symmetric = True
+            self.is_lower_triangular = True
+            self.is_upper_triangular = True
 
         if self._linop.is_positive_definite:
             if self._scalar > 0:
-- 
2.43.0


From a5a06d963f6b5a10713bccbbf73d89820cf8e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 49/49] fix: transposing keeps properties already known about
 the transpose

---
 src/probnum/linops/_linear_operator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/probnum/linops/_linear_operator.py b/src/probnum/linops/_linear_operator.py
index e6b5ba4..0107fc1 100644
--- a/src/probnum/linops/_linear_operator.py
+++ b/src/probnum/linops/_linear_operator.py
@@ -943,10 +943,15 @@ class LinearOperator(abc.ABC):  # pylint: disable=too-many-instance-attributes
 
         transposed = self._transpose()
 
-        transposed.is_upper_triangular = self.is_lower_triangular
-        transposed.is_lower_triangular = self.is_upper_triangular
-        transposed.is_symmetric = self.is_symmetric
-        transposed.is_positive_definite = self.is_positive_definite
+        # What is not known about this operator may be known about the transpose
+        if self.is_lower_triangular is not None:
+            transposed.is_upper_triangular = self.is_lower_triangular
+        if self.is_upper_triangular is not None:
+            transposed.is_lower_triangular = self.is_upper_triangular
+        if self.is_symmetric is not None:
+            transposed.is_symmetric = self.is_symmetric
+        if self.is_positive_definite is not None:
+            transposed.is_positive_definite = self.is_positive_definite
 
         return transposed
 
-- 
2.43.0

