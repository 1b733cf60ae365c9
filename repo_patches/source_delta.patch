From d37501c9c8297d22c1fca07158aead4662a05af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 01/46] fix: Constant kernel transition matrix used a
 non-existent attribute

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 5bef960..671629b 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -547,7 +547,7 @@ class Constant(StateSpaceModel):
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The transition matrix A_k for a Constant process"""
         del X1, X2
-        return self.eye(self.dimension)
+        return jnp.eye(self.dimension)
 
     def process_noise(self, X1, X2, use_van_loan=False):
         """The process noise Q_k for a Constant process"""
-- 
2.43.0


From 7d450af51d1ccfc09b09ce40c7b1ee6fc1c9a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 02/46] fix: multiplying a kernel by a scalar failed because
 Scale required a name

---
 src/smolgp/kernels/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 671629b..8ffc62e 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -478,6 +478,17 @@ class Scale(Wrapper):
 
     scale: JAXArray | float
 
+    def __init__(
+        self,
+        kernel: StateSpaceModel,
+        scale: JAXArray | float,
+        name: str | None = None,
+        **kwargs,
+    ):
+        self.kernel = kernel
+        self.scale = scale
+        self.name = kernel.name if name is None else name
+
     def stationary_covariance(self) -> JAXArray:
         return self.scale * self.kernel.stationary_covariance()
 
-- 
2.43.0


From 89a051077c05b27f334664df5ff8f8ed614afb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 03/46] fix: scaled kernels left the process noise unscaled

---
 src/smolgp/kernels/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 8ffc62e..96b4e4f 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -496,6 +496,9 @@ class Scale(Wrapper):
     def noise(self) -> JAXArray:
         return self.scale * self.kernel.noise()
 
+    def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        return self.scale * self.kernel.process_noise(X1, X2)
+
 
 ################ GP KERNEL DEFINITIONS ################
 ## TODO: tinygp base kernels not yet implemented
-- 
2.43.0


From e89e188ce0c796e4af09d539801f94e3135654c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 04/46] fix: Exp transition matrix failed for scalar
 (non-array) lags

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 96b4e4f..0b29194 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -803,7 +803,7 @@ class Exp(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return jnp.exp(-dt[None, None] / self.scale)
+        return jnp.array([[jnp.exp(-dt / self.scale)]])
 
     def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The process noise Q_k for the Exp process"""
-- 
2.43.0


From 6f4e69fa05d0c35a887683498e774990da5435d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 05/46] fix: evaluating a kernel on one set of coordinates
 raised a shape error

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 0b29194..fe529b7 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -226,7 +226,7 @@ class StateSpaceModel(Kernel):
     def evaluate_diag(self, X: JAXArray) -> JAXArray:
         """For state space kernels, the variance is simple to compute"""
         h = self.observation_model(X)
-        return h @ self.stationary_covariance() @ h.T
+        return (h @ self.stationary_covariance() @ h.T).squeeze()
 
     def psd(self, omega: JAXArray) -> JAXArray:
         """
-- 
2.43.0


From 42916e44ac05661901f4af849858e9d5bc40bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 06/46] fix: product kernels vanished when extracted as a
 component of a sum

---
 src/smolgp/kernels/base.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index fe529b7..8570f67 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -399,12 +399,6 @@ class Product(StateSpaceModel):
         Pinf2 = self.kernel2.stationary_covariance()
         return jnp.kron(Pinf1, Q2) + jnp.kron(Q1, Pinf2) - jnp.kron(Q1, Q2)
 
-    def observation_model(self, X: JAXArray, component=None) -> JAXArray:
-        """H = H1 ⊗ H2 with component extraction"""
-        H1 = self.kernel1.observation_model(X, component=component)
-        H2 = self.kernel2.observation_model(X, component=component)
-        return jnp.kron(H1, H2)
-
     def observation_matrix(self, X: JAXArray) -> JAXArray:
         """H = H1 ⊗ H2"""
         H1 = self.kernel1.observation_matrix(X)
-- 
2.43.0


From 5abf725a56ce18a4f369c83096c5b54eff627704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 07/46] fix: scaled or multiplied integrated kernels silently
 used the instantaneous solver

---
 src/smolgp/gp.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 829b294..255932d 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -16,7 +16,7 @@ from tinygp import kernels, means
 from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
-from smolgp.kernels import StateSpaceModel, Sum, Product
+from smolgp.kernels import StateSpaceModel, Sum, Product, Wrapper
 from smolgp.kernels.base import extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
@@ -31,6 +31,19 @@ if TYPE_CHECKING:
 import dataclasses
 
 
+def contains_integrated(kernel: StateSpaceModel) -> bool:
+    """
+    Whether any part of a (composite or wrapped) kernel is an integrated model
+    """
+    if isinstance(kernel, (Sum, Product)):
+        return contains_integrated(kernel.kernel1) or contains_integrated(
+            kernel.kernel2
+        )
+    if isinstance(kernel, Wrapper):
+        return contains_integrated(kernel.kernel)
+    return isinstance(kernel, IntegratedStateSpaceModel)
+
+
 def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     """
     Return a new kernel where leaf kernel names
@@ -327,7 +340,7 @@ class GaussianProcess(eqx.Module):
 
         # Check if the kernel contains any integrated components
         kernels = extract_leaf_kernels(self.kernel)
-        is_integrated = any([isinstance(k, IntegratedStateSpaceModel) for k in kernels])
+        is_integrated = contains_integrated(self.kernel)
         is_instantaneous = all([isinstance(k, StateSpaceModel) for k in kernels])
 
         # If using an integrated solver, ensure X has both coords and bin sizes
-- 
2.43.0


From 348fe690db62bed96c960518bb76744ac4ca4cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 08/46] fix: unique naming failed for repeated products,
 clashing suffixes and custom wrappers

---
 src/smolgp/gp.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 255932d..7e3d1a3 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -61,22 +61,30 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
         counts[k.name] = counts.get(k.name, 0) + 1
     # counter for how many times we've used each duplicated name
     used = {name: 1 for name, c in counts.items() if c > 1}
+    taken = set(names)
+
+    def _with_name(k: StateSpaceModel, newname: str) -> StateSpaceModel:
+        # Copy without re-running the (possibly user-defined) constructor
+        new = object.__new__(type(k))
+        for field in dataclasses.fields(k):
+            if hasattr(k, field.name):
+                object.__setattr__(new, field.name, getattr(k, field.name))
+        object.__setattr__(new, "name", newname)
+        return new
 
     def _rename(k: StateSpaceModel) -> StateSpaceModel:
         if isinstance(k, Sum):
             k1 = _rename(k.kernel1)
             k2 = _rename(k.kernel2)
             return Sum(k1, k2)
-        if isinstance(k, Product):
-            k1 = _rename(k.kernel1)
-            k2 = _rename(k.kernel2)
-            return Product(k1, k2)
-        # Leaf
+        # Leaf (anything that is not a sum, e.g. a product, is one component)
         if counts[k.name] > 1:
-            idx = used[k.name]
-            used[k.name] += 1
-            newname = f"{k.name}_{idx}"
-            return dataclasses.replace(k, name=newname)
+            newname = f"{k.name}_{used[k.name]}"
+            while newname in taken:  # e.g. if the user already chose this name
+                used[k.name] += 1
+                newname = f"{k.name}_{used[k.name]}"
+            taken.add(newname)
+            return _with_name(k, newname)
         else:
             # Single occurrence: leave unchanged
             return k
-- 
2.43.0


From 7e5d4f9addfc13bd5d38413ed4dc41d1846b408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 09/46] fix: conditioning directly at test points raised an
 error for every model

---
 src/smolgp/gp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 7e3d1a3..9093aac 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -574,7 +574,10 @@ class GaussianProcess(eqx.Module):
 
         if X_test is not None:
             # If X_test was given, also predit at those points
-            mu, var = self.solver.predict(X_test, conditioned_results)
+            mean, cov = self.solver.predict(X_test, states())
+            H_test = jax.vmap(observation_model)(X_test)
+            mu = jax.vmap(lambda H, m: H @ m)(H_test, mean).squeeze()
+            var = jax.vmap(lambda H, P: H @ P @ H.T)(H_test, cov).squeeze()
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-- 
2.43.0


From eabd5fb831d10961212514e7b3adc4052208ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 10/46] fix: a single data or test point lost its axis and
 broke conditioning and prediction

---
 src/smolgp/gp.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 9093aac..ab6b388 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -92,6 +92,11 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     return _rename(kernel)
 
 
+def _squeeze_outputs(x: JAXArray) -> JAXArray:
+    """Drop the singleton output dimensions, but never the (leading) data one"""
+    return x.squeeze(axis=tuple(i for i in range(1, x.ndim) if x.shape[i] == 1))
+
+
 class ConditionedStates(eqx.Module):
     """
     An object to hold the conditioned means and variances
@@ -174,7 +179,7 @@ class ConditionedStates(eqx.Module):
         m_sel = jnp.take(self.smoothed_mean, idx, axis=0)
         P_sel = jnp.take(self.smoothed_cov, idx, axis=0)
         mu, var = jax.vmap(project)(self.X, m_sel, P_sel)
-        return mu.squeeze(), var.squeeze()
+        return _squeeze_outputs(mu), _squeeze_outputs(var)
 
 
 class PredictedStates(eqx.Module):
@@ -214,7 +219,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         mu = jax.vmap(_project)(H, self.mean)
-        return mu.squeeze()
+        return _squeeze_outputs(mu)
 
     def project_variance(self, observation_model) -> JAXArray:
         """
@@ -227,7 +232,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         var = jax.vmap(_project)(H, self.cov)
-        return var.squeeze()
+        return _squeeze_outputs(var)
 
     @property
     def loc(self) -> JAXArray:
@@ -576,8 +581,8 @@ class GaussianProcess(eqx.Module):
             # If X_test was given, also predit at those points
             mean, cov = self.solver.predict(X_test, states())
             H_test = jax.vmap(observation_model)(X_test)
-            mu = jax.vmap(lambda H, m: H @ m)(H_test, mean).squeeze()
-            var = jax.vmap(lambda H, P: H @ P @ H.T)(H_test, cov).squeeze()
+            mu = _squeeze_outputs(jax.vmap(lambda H, m: H @ m)(H_test, mean))
+            var = _squeeze_outputs(jax.vmap(lambda H, P: H @ P @ H.T)(H_test, cov))
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
@@ -701,10 +706,12 @@ class GaussianProcess(eqx.Module):
                             X, component=name
                         )
                     H = jax.vmap(H_test)(X_test)
-                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean).squeeze()
-                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(
-                        H, variance
-                    ).squeeze()
+                    mu = _squeeze_outputs(
+                        jax.vmap(lambda H_i, m: H_i @ m)(H, mean)
+                    )
+                    var = _squeeze_outputs(
+                        jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, variance)
+                    )
 
         if return_var:
             return mu, var
-- 
2.43.0


From 512bc91856d7df667da17c1461f1508cebde175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 11/46] fix: parallel solver failed for one-dimensional state
 spaces

---
 src/smolgp/solvers/parallel/kalman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 99c77c4..64bff84 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -65,11 +65,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (P @ H0.T).T).T
 
         A = jnp.zeros_like(Phi0)
-        b = jnp.squeeze(m + K @ (y0 - H0 @ m))
+        b = m + K @ (y0 - H0 @ m)
         C = P - K @ S @ K.T
 
         _M = Phi0.T @ H0.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y0)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y0))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
@@ -92,11 +92,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (Q_dt @ Hk.T).T).T
 
         A = (I - K @ Hk) @ Phi_dt
-        b = jnp.squeeze(K @ jnp.atleast_1d(y))  # remove atleast_1d?
+        b = K @ jnp.atleast_1d(y)
         C = (I - K @ Hk) @ Q_dt
 
         _M = Phi_dt.T @ Hk.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
-- 
2.43.0


From 5bf3865e6a3e2632c029f754960dcced2ce1f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 12/46] fix: parallel solver conditioning failed with its
 default arguments

---
 src/smolgp/solvers/parallel/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 26e421d..8750232 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -63,7 +63,7 @@ class ParallelStateSpaceSolver(eqx.Module):
         """
 
         # Kalman filtering
-        kalman_results = self.Kalman(y, return_v_S=True)
+        kalman_results = self.Kalman(y, return_v_S=return_v_S)
         if return_v_S:
             m_filtered, P_filtered, m_predicted, P_predicted, v, S = kalman_results
             v_S = (v, S)
-- 
2.43.0


From e9c52bba4ff626250f76846f26f589756132727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 13/46] fix: parallel solver predictions failed for structured
 coordinates

---
 src/smolgp/solvers/parallel/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 8750232..f156755 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -150,7 +150,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             Kalman prediction from most recent
             filtered (not smoothed) state
             """
-            dt = X_test[ktest] - self.X[k]
+            dt = t_test[ktest] - t_states[k]
             m_k = m_filtered[k]
             P_k = P_filtered[k]
             A_star = A(0, dt)  # transition matrix from t_k to t_star
@@ -180,7 +180,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             ]  # RTS smoothed covariance at next data point
 
             # Time-lag between states
-            dt = self.X[k_next] - X_test[ktest]
+            dt = t_states[k_next] - t_test[ktest]
 
             # Transition matrix for this step
             A_k = A(0, dt)
-- 
2.43.0


From f1ad9cb9c9a2162717b54c1db1a434d46c267174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 14/46] fix: integer-valued times failed, or were truncated to
 whole exposure edges

---
 src/smolgp/solvers/integrated/kalman.py          | 7 ++++++-
 src/smolgp/solvers/integrated/parallel/solver.py | 2 +-
 src/smolgp/solvers/integrated/solver.py          | 2 +-
 src/smolgp/solvers/kalman.py                     | 2 +-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/solvers/integrated/kalman.py b/src/smolgp/solvers/integrated/kalman.py
index 49e27b8..c059b6f 100644
--- a/src/smolgp/solvers/integrated/kalman.py
+++ b/src/smolgp/solvers/integrated/kalman.py
@@ -70,7 +70,12 @@ def integrated_kalman_filter(
         m_prev, P_prev = carry
 
         # If k==0 we use the prior m0, Pinf and zero time-lag (dt=0)
-        Delta = jax.lax.cond(k > 0, lambda i: t_states[i] - t_states[i - 1], lambda _: 0.0, k)
+        Delta = jax.lax.cond(
+            k > 0,
+            lambda i: t_states[i] - t_states[i - 1],
+            lambda _: jnp.zeros_like(t_states[0]),
+            k,
+        )
         n = obsid[k]
 
         # Get transition matrix
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index d04ec95..c528862 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -60,7 +60,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 727d4db..e706af4 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -61,7 +61,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index 8168e92..132e946 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -77,7 +77,7 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
         Delta = jax.lax.cond(
             k > 0,
             lambda i: t[i] - t[i - 1],
-            lambda _: 0.0,
+            lambda _: jnp.zeros_like(t[0]),
             k,
         )
 
-- 
2.43.0


From 3be960e647ddd134689f6607df39d800a6bd9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 15/46] fix: overdamped SHO overflowed to NaN for large time
 gaps

---
 src/smolgp/kernels/base.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 8570f67..ec40cd5 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -659,10 +659,14 @@ class SHO(StateSpaceModel):
 
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
-            x = n * w * dt
-            sinh = jnp.sinh(x)
-            cosh = jnp.cosh(x)
-            return jnp.exp(-0.5 * w * dt / q) * jnp.array(
+            # Combine the exponentials, since exp(-wdt/2q) underflows
+            # (and the sinh/cosh overflow) long before their product does
+            slow = -2 * q * w * dt / (1 + f)  # = (n - 1/(2q)) * w * dt
+            exp = jnp.exp(slow)
+            expm1 = jnp.expm1(-2 * n * w * dt)
+            sinh = -0.5 * exp * expm1
+            cosh = exp + 0.5 * exp * expm1
+            return jnp.array(
                 [[cosh + sinh / f, sinh / (w * n)], [-w * sinh / n, cosh - sinh / f]]
             )
 
@@ -718,15 +722,16 @@ class SHO(StateSpaceModel):
             n2 = jnp.square(n)
             w2 = jnp.square(w)
             a = w * dt / q  # argument in exponential
-            x = n * w * dt  # argument in sin/cos
-            sinh = jnp.sinh(x)
-            sinh2 = jnp.sinh(2 * x)
-            sinhsq = jnp.square(sinh)
-            exp = jnp.exp(-a)
+            x = n * w * dt  # argument in sinh/cosh
+            # Combine the exponentials, since exp(-a) underflows (and
+            # the sinh's overflow) long before their product does
+            slow = jnp.exp(-4 * q * w * dt / (1 + f))  # = exp(2x - a)
+            sinh2 = -0.5 * slow * jnp.expm1(-4 * x)  # = exp(-a) * sinh(2x)
+            sinhsq = 0.25 * slow * jnp.square(jnp.expm1(-2 * x))  # = exp(-a) * sinh(x)^2
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
-            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2)) * exp
-            Q12 = Q21 = exp * (w * sinhsq / (n2 * q))
-            Q22 = w2 * (-expm1 + exp * (sinh2 / f - sinhsq / (2 * n2 * q2)))
+            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2))
+            Q12 = Q21 = w * sinhsq / (n2 * q)
+            Q22 = w2 * (-expm1 + (sinh2 / f - sinhsq / (2 * n2 * q2)))
             return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         return jax.lax.cond(
-- 
2.43.0


From f1e0d92552f4de6ba90745845afab41e39f1b753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 16/46] fix: documented X=(t, texp) coordinates failed for
 integrated kernels

---
 src/smolgp/gp.py                 | 10 ++++++++++
 src/smolgp/kernels/integrated.py |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index ab6b388..5174fa0 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -44,6 +44,13 @@ def contains_integrated(kernel: StateSpaceModel) -> bool:
     return isinstance(kernel, IntegratedStateSpaceModel)
 
 
+def _default_instid(X: Any) -> Any:
+    """If no instrument index is given in X=(t, texp), there is only one instrument"""
+    if isinstance(X, tuple) and len(X) == 2:
+        return (*X, jnp.zeros(jnp.shape(X[0]), dtype=int))
+    return X
+
+
 def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     """
     Return a new kernel where leaf kernel names
@@ -364,6 +371,7 @@ class GaussianProcess(eqx.Module):
                 " where t is the midpoint of each measurement and texp is the exposure time"
                 " (i.e. each measurement is over the interval [t - texp/2, t + texp/2])."
             )
+            X = _default_instid(X)
 
         # Data coordinates (or tuple of coordinates)
         self.X = X
@@ -510,6 +518,8 @@ class GaussianProcess(eqx.Module):
         # (i.e. the dimension of the inputs must match). This is slightly
         # convoluted since we need to support arbitrary pytrees.
         if X_test is not None:
+            if contains_integrated(self.kernel):
+                X_test = _default_instid(X_test)
             matches = jax.tree_util.tree_map(
                 lambda a, b: jnp.ndim(a) == jnp.ndim(b)
                 and jnp.shape(a)[1:] == jnp.shape(b)[1:],
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index ef07155..514e2d2 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -120,7 +120,8 @@ class IntegratedStateSpaceModel(StateSpaceModel):
 
         if isinstance(X, tuple) or isinstance(X, list):
             # Observing integral state (z) with exposure time (delta)
-            t, delta, instid = X
+            # (from the first instrument, if not otherwise specified)
+            t, delta, instid = X if len(X) > 2 else (*X, 0)
             H_aug = jax.lax.cond(
                 delta > 0,
                 lambda _: H_integral(t, delta, instid),
-- 
2.43.0


From b04495dd5e149d6a03d086c21b922651743a69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 17/46] fix: parallel integrated solver ignored the first
 measurement if it had zero exposure

---
 src/smolgp/solvers/integrated/parallel/kalman.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 2222c9b..8574b01 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -123,9 +123,20 @@ def make_associative_params(
         P = transition @ P0 @ transition.T  # Q(0,0) = 0
 
         A = Reset
-        b = jnp.squeeze(m)
+        b = m
         C = P
 
+        # If there is data at the first state (i.e. it is itself the end
+        # of a zero-length exposure), condition the prior on it instead
+        m_pred = Phi0 @ m0
+        P_pred = Phi0 @ P0 @ Phi0.T
+        Hk = H_array[obsid[0]]
+        Sk = Hk @ P_pred @ Hk.T + R[obsid[0]]
+        Kk = jnp.linalg.solve(Sk.T, (P_pred @ Hk.T).T).T
+        is_end = stateid[0] == 1
+        b = jnp.where(is_end, m_pred + Kk @ (y[obsid[0]] - Hk @ m_pred), b)
+        C = jnp.where(is_end, P_pred - Kk @ Sk @ Kk.T, C)
+
         eta = jnp.zeros(state_dim)
         J = jnp.zeros_like(Phi0)
 
-- 
2.43.0


From e92615167a412a091fa0c535eca3378ff80e4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 18/46] fix: absolute underflow thresholds zeroed the process
 noise of small-amplitude SHO models

---
 src/smolgp/kernels/base.py       | 8 +++++---
 src/smolgp/kernels/integrated.py | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index ec40cd5..db669cf 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -711,10 +711,12 @@ class SHO(StateSpaceModel):
             Q11 = -expm1 - (sin2 / f + sinsq / (2 * n2 * q2)) * exp
             Q12 = Q21 = exp * (w * sinsq / (n2 * q))
             Q22 = w2 * (-expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2)))
-            Q = jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
-            return jnp.where(
-                jnp.abs(Q) < 1e-14, jnp.zeros_like(Q), Q
+            Q = jnp.array([[Q11, Q12], [Q21, Q22]])
+            units = jnp.array([[1.0, w], [w, w2]])
+            Q = jnp.where(
+                jnp.abs(Q) < 1e-14 * units, jnp.zeros_like(Q), Q
             )  # prevent underflows
+            return jnp.square(self.sigma) * Q
 
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 514e2d2..c7563ca 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -402,11 +402,12 @@ class IntegratedSHO(IntegratedStateSpaceModel):
             iQ22 = 1 / (4 * q2 * w2) * (part1 + part2 + part3)
             iQ22 = jnp.maximum(iQ22, 0.0)  # prevent underflows at dt=0
 
+            # Prevent underflows (relative to the units of each term)
+            iQ12_1 = jnp.where(jnp.abs(iQ12_1) < 1e-14 / w, 0.0, iQ12_1)
+            iQ12_2 = jnp.where(jnp.abs(iQ12_2) < 1e-14, 0.0, iQ12_2)
+            iQ22 = jnp.where(jnp.abs(iQ22) < 1e-14 / w2, 0.0, iQ22)
             Qaug12 = sigma2 * jnp.array([[iQ12_1], [iQ12_2]])
             Qaug22 = sigma2 * jnp.array([[iQ22]])
-            # Prevent underflows
-            Qaug12 = jnp.where(jnp.abs(Qaug12) < 1e-14, jnp.zeros_like(Qaug12), Qaug12)
-            Qaug22 = jnp.where(jnp.abs(Qaug22) < 1e-14, jnp.zeros_like(Qaug22), Qaug22)
             Qaug21 = Qaug12.T
             return Qaug12, Qaug21, Qaug22
 
-- 
2.43.0


From e8cb4027edfe125b989c1c9e7ea8368b9962dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 19/46] fix: ExpSineSquared.error_bound was not a bound on the
 approximation error

---
 src/smolgp/kernels/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index db669cf..a1ef28a 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1188,10 +1188,12 @@ class ExpSineSquared(Wrapper):
         An upper bound on the error in the covariance
         from the Taylor series approximation.
 
-        See Sec 3.4 of Solin & Särkkä (2014).
+        See Sec 3.4 of Solin & Särkkä (2014). Here the J = `order` terms are
+        j = 0, ..., J-1. The truncated tail is at most that of the Taylor series,
+        exp(-x) * sum_{n>=J} x^n/n! <= x^J/J!, for x = 1/scale.
         """
         J = self.order
-        return jnp.exp(1 - self.scale) / jax.scipy.special.factorial(J + 1)
+        return jnp.square(self.sigma) * jnp.power(1 / self.scale, J) / factorial(J)
 
     def stationary_covariance(self) -> JAXArray:
         return jnp.square(self.sigma) * self.kernel.stationary_covariance()
-- 
2.43.0


From d57f56598695a04317cf638d1ca54d5580374cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 20/46] fix: smoothing integrated models gave NaN whenever an
 integral state carries no information of its own

e.g. for short or coincident exposures, and always for IntegratedCosine
---
 src/smolgp/helpers.py                            | 15 +++++++++++++++
 src/smolgp/solvers/integrated/parallel/rts.py    |  3 +++
 src/smolgp/solvers/integrated/parallel/solver.py |  4 +++-
 src/smolgp/solvers/integrated/rts.py             |  7 +++++--
 src/smolgp/solvers/integrated/solver.py          |  4 +++-
 5 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 06631c4..147de12 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -3,6 +3,21 @@ from jax.scipy.linalg import expm
 from tinygp.helpers import JAXArray
 
 
+def regularize(P: JAXArray) -> JAXArray:
+    """
+    Add a relative jitter (of order machine epsilon) to the variances of P
+
+    The covariance of an integrated model is singular whenever an integral
+    state is a known function of the other states, e.g. if no (or negligible)
+    time has passed since it was reset, if the exposures of two instruments
+    coincide, or if the process has no driving noise. Such directions carry no
+    information, but need to be kept invertible to get the smoothing gain.
+    """
+    var = jnp.diagonal(P)
+    eps = 16 * jnp.finfo(P.dtype).eps
+    return P + jnp.diag(jnp.where(var == 0, 1.0, eps * var))
+
+
 def block_view(A, b):
     Nb, Mb = A.shape
     assert Nb % b == 0 and Mb % b == 0
diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index ed66266..6c45565 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import regularize
+
 
 def ParallelIntegratedRTSSmoother(
     kernel,
@@ -104,6 +106,7 @@ def make_associative_params(
         A = Phik @ Pk @ Phik.T + Qk
         b = Pk @ Phik.T
 
+        A = regularize(A)
         E = jax.scipy.linalg.solve(A.T, b.T, assume_a="pos").T
         g = mk - E @ (Phik @ mk)
         L = Pk - E @ Phik @ Pk
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index c528862..c8c1f0d 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -7,6 +7,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import regularize
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.parallel.kalman import ParallelIntegratedKalmanFilter
 from smolgp.solvers.integrated.parallel.rts import ParallelIntegratedRTSSmoother
@@ -225,7 +226,8 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_star_pred @ A_k.T).T).T
+            P_reg_next = regularize(P_pred_next)  # to be inverted
+            G_k = jnp.linalg.solve(P_reg_next.T, (P_star_pred @ A_k.T).T).T
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 2a98cc0..2dc7e45 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import regularize
+
 
 def IntegratedRTSSmoother(kernel, t_states, obsid, instid, stateid, kalman_results):
     """
@@ -63,6 +65,7 @@ def integrated_rts_smoother(
         # Compute smoothing gain
         Delta = t_states[k + 1] - t_states[k]
         A_k = A_aug(0, Delta)
+        P_reg_next = regularize(P_pred_next)  # to be inverted
 
         def smooth_start():
             """RTS smooth an exposure-start state"""
@@ -72,14 +75,14 @@ def integrated_rts_smoother(
 
             Reset = RESET(instid[obsid[k]])
             AR = A_k @ Reset
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k_pre @ AR.T).T).T
+            G_k = jnp.linalg.solve(P_reg_next.T, (P_k_pre @ AR.T).T).T
             m_hat_k = m_k_pre + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k_pre + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
 
         def smooth_end():
             """RTS smooth an exposure-end state"""
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k @ A_k.T).T).T
+            G_k = jnp.linalg.solve(P_reg_next.T, (P_k @ A_k.T).T).T
             m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index e706af4..17afa5e 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -9,6 +9,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import regularize
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.kalman import IntegratedKalmanFilter
 from smolgp.solvers.integrated.rts import IntegratedRTSSmoother
@@ -220,7 +221,8 @@ class IntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_star_pred @ A_k.T).T).T
+            P_reg_next = regularize(P_pred_next)  # to be inverted
+            G_k = jnp.linalg.solve(P_reg_next.T, (P_star_pred @ A_k.T).T).T
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
-- 
2.43.0


From 74209d4f4f5b2f504eb8ce6ee302c177ec0dc8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 21/46] fix: parallel RTS smoothing gave NaN for covariances
 that are only numerically indefinite

The Cholesky solve needs a numerically positive definite predicted covariance,
which round-off can violate for short gaps and near-singular states. The
sequential smoother uses a general solve; do the same here.
---
 src/smolgp/solvers/integrated/parallel/rts.py | 2 +-
 src/smolgp/solvers/parallel/rts.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index 6c45565..f5dfc19 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -107,7 +107,7 @@ def make_associative_params(
         b = Pk @ Phik.T
 
         A = regularize(A)
-        E = jax.scipy.linalg.solve(A.T, b.T, assume_a="pos").T
+        E = jnp.linalg.solve(A.T, b.T).T
         g = mk - E @ (Phik @ mk)
         L = Pk - E @ Phik @ Pk
 
diff --git a/src/smolgp/solvers/parallel/rts.py b/src/smolgp/solvers/parallel/rts.py
index 9449174..e9859bc 100644
--- a/src/smolgp/solvers/parallel/rts.py
+++ b/src/smolgp/solvers/parallel/rts.py
@@ -48,7 +48,7 @@ def make_associative_params(Phi, Q, t, mu, P):
         A = Phi_dt @ P @ Phi_dt.T + Q_dt
         b = P @ Phi_dt.T
 
-        E = jax.scipy.linalg.solve(A.T, b.T, assume_a="pos").T
+        E = jnp.linalg.solve(A.T, b.T).T
         g = mu - E @ (Phi_dt @ mu)
         L = P - E @ Phi_dt @ P
 
-- 
2.43.0


From 90714d298300f825c56aa3a79ded2be066c4b56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 22/46] fix: integrated process noise was wrong or NaN for
 large and for very small time steps

The Van Loan construction involves exp(-F dt), which overflows for time steps
of many correlation times, and the closed form for the underdamped SHO cancels
catastrophically for short ones. Compute the default from the stationary
covariance and integrals of exp(F s) (s > 0) instead.
---
 src/smolgp/helpers.py            | 29 +++++++++++++++--
 src/smolgp/kernels/integrated.py | 53 +++++++++++++++++---------------
 2 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 147de12..6570a14 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -71,12 +71,35 @@ def Phibar_from_VanLoan(F: JAXArray, dt: JAXArray) -> JAXArray:
     b = len(F)  # block size
     Z = jnp.zeros((b, b))
     I = jnp.eye(b)
-    C = jnp.block([[F, I], [Z, Z]])
-    VanLoanBlock = expm(C * dt)
-    G3 = VanLoanBlock[:b, b:]
+    # integrate over s/dt from 0 to 1, so that all blocks have the same units
+    C = jnp.block([[F * dt, I], [Z, Z]])
+    VanLoanBlock = expm(C, max_squarings=32)
+    G3 = VanLoanBlock[:b, b:] * dt
     return G3
 
 
+def integrals_of_expm(F: JAXArray, dt: JAXArray) -> tuple[JAXArray, JAXArray, JAXArray]:
+    """
+    Van Loan method to compute the transition matrix and its integrals
+
+    Parameters:
+        F: StateSpaceModel.design_matrix
+        dt: time step between measurements (dt = X2 - X1)
+
+    Returns:
+        Phi: The transition matrix exp(F dt)
+        Phibar: Its integral ∫0^dt exp(F s) ds
+        Phibarbar: Its double integral ∫0^dt ∫0^s exp(F r) dr ds
+    """
+    b = len(F)  # block size
+    Z = jnp.zeros((b, b))
+    I = jnp.eye(b)
+    # integrate over s/dt from 0 to 1, so that all blocks have the same units
+    C = jnp.block([[F * dt, I, Z], [Z, Z, I], [Z, Z, Z]])
+    VanLoanBlock = block_view(expm(C, max_squarings=32), b)
+    return VanLoanBlock[0, 0], VanLoanBlock[0, 1] * dt, VanLoanBlock[0, 2] * dt**2
+
+
 def VanLoan(
     F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray
 ) -> tuple[JAXArray, JAXArray]:
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index c7563ca..0725932 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -38,7 +38,7 @@ from tinygp.helpers import JAXArray
 
 import smolgp.kernels
 from smolgp.kernels import StateSpaceModel
-from smolgp.helpers import Phibar_from_VanLoan
+from smolgp.helpers import Phibar_from_VanLoan, integrals_of_expm
 
 
 class IntegratedStateSpaceModel(StateSpaceModel):
@@ -177,7 +177,11 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         Computes the submatrices Qaug12, Qaug21, and Qaug22
         needed to assemble the augmented process noise matrix.
 
-        By default uses the Van Loan method to compute these submatrices.
+        Default behavior uses the stationary covariance of the base model, as for the
+        process noise of the base model itself. The unconditional covariances of x(dt)
+        and z(dt) with z(0)=0 are ∫Φ(s)Pinf ds and 2∫∫Φ(s)Pinf ds ds; the process noise
+        is what remains after subtracting the contributions from x(0). Unlike the Van
+        Loan method, this does not involve exp(-F*dt), which overflows for large dt.
         Overload this method if you wish to define these submatrices analytically.
         """
 
@@ -185,21 +189,12 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
         F = self.base_model.design_matrix()
-        L = self.base_model.noise_effect_matrix()
-        Qc = self.base_model.noise()
-
-        vanloan = smolgp.helpers.VanLoan(F, L, Qc, dt)
-        F3 = vanloan["F3"]
-        H2 = vanloan["H2"]
-        K1 = vanloan["K1"]
-
-        M = F3.T @ H2
-        F3TK1 = F3.T @ K1
-        W = F3TK1 + F3TK1.T
+        Pinf = self.base_model.stationary_covariance()
+        Phi, Phibar, Phibarbar = integrals_of_expm(F, dt)
 
-        Qaug12 = M[:, :1]
+        Qaug12 = (Phibar @ Pinf - Phi @ Pinf @ Phibar.T)[:, :1]
         Qaug21 = Qaug12.T
-        Qaug22 = W[:1, :1]
+        Qaug22 = (2 * Phibarbar @ Pinf - Phibar @ Pinf @ Phibar.T)[:1, :1]
         return Qaug12, Qaug21, Qaug22
 
     # @partial(
@@ -223,8 +218,8 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
         if force_numerical:
-            Qaug12, Qaug21, Qaug22 = super(type(self), self).integrated_process_noise(
-                X1, X2
+            Qaug12, Qaug21, Qaug22 = IntegratedStateSpaceModel.integrated_process_noise(
+                self, X1, X2
             )
         else:
             Qaug12, Qaug21, Qaug22 = self.integrated_process_noise(X1, X2)
@@ -374,7 +369,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def critical(dt: JAXArray) -> JAXArray:
             # TODO: returning numerical result until we do this integral by hand
-            return super(type(self), self).integrated_process_noise(0, dt)
+            return IntegratedStateSpaceModel.integrated_process_noise(self, 0, dt)
 
         def underdamped(dt: JAXArray) -> JAXArray:
             x = a * dt
@@ -402,10 +397,6 @@ class IntegratedSHO(IntegratedStateSpaceModel):
             iQ22 = 1 / (4 * q2 * w2) * (part1 + part2 + part3)
             iQ22 = jnp.maximum(iQ22, 0.0)  # prevent underflows at dt=0
 
-            # Prevent underflows (relative to the units of each term)
-            iQ12_1 = jnp.where(jnp.abs(iQ12_1) < 1e-14 / w, 0.0, iQ12_1)
-            iQ12_2 = jnp.where(jnp.abs(iQ12_2) < 1e-14, 0.0, iQ12_2)
-            iQ22 = jnp.where(jnp.abs(iQ22) < 1e-14 / w2, 0.0, iQ22)
             Qaug12 = sigma2 * jnp.array([[iQ12_1], [iQ12_2]])
             Qaug22 = sigma2 * jnp.array([[iQ22]])
             Qaug21 = Qaug12.T
@@ -413,12 +404,21 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def overdamped(dt: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            return super(type(self), self).integrated_process_noise(0, dt)
+            return IntegratedStateSpaceModel.integrated_process_noise(self, 0, dt)
+
+        def short(dt: JAXArray) -> JAXArray:
+            # The terms in underdamped() cancel almost completely for short times
+            return IntegratedStateSpaceModel.integrated_process_noise(self, 0, dt)
 
         return jax.lax.cond(
             jnp.allclose(q, 0.5),
             critical,
-            lambda dt: jax.lax.cond(q > 0.5, underdamped, overdamped, dt),
+            lambda dt: jax.lax.cond(
+                q > 0.5,
+                lambda dt: jax.lax.cond(w * dt > 0.1, underdamped, short, dt),
+                overdamped,
+                dt,
+            ),
             dt,
         )
 
@@ -509,3 +509,8 @@ class IntegratedCosine(IntegratedStateSpaceModel):
         self.num_insts = num_insts
         self.base_model = smolgp.kernels.Cosine(scale=self.scale, sigma=self.sigma)
         self.omega = self.base_model.omega
+
+    def integrated_process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        """Like the base model, the integrated Cosine process has no driving noise"""
+        del X1, X2
+        return jnp.zeros((self.d, 1)), jnp.zeros((1, self.d)), jnp.zeros((1, 1))
-- 
2.43.0


From 29ea96bf1b794eaa6eab6ec35b9d637af305d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 23/46] fix: back-to-back exposures were mishandled when
 round-off made them overlap

If the next exposure of the same instrument starts an ulp before the end of the
previous one, the integral state was reset before it was observed.
---
 src/smolgp/helpers.py                          | 18 ++++++++++++++++++
 .../solvers/integrated/parallel/solver.py      |  5 ++---
 src/smolgp/solvers/integrated/solver.py        |  5 ++---
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 6570a14..b7cb484 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -18,6 +18,24 @@ def regularize(P: JAXArray) -> JAXArray:
     return P + jnp.diag(jnp.where(var == 0, 1.0, eps * var))
 
 
+def exposure_edges(t: JAXArray, delta: JAXArray) -> tuple[JAXArray, JAXArray]:
+    """
+    The start and end times of exposures with midpoints t and lengths delta
+
+    For back-to-back exposures, round-off can place the start of the next
+    exposure just before the end of the previous one, which would reset the
+    integral before it is observed; such edges are made to coincide.
+    """
+    ts = t - delta / 2
+    te = t + delta / 2
+    te_sorted = jnp.sort(te)
+    idx = jnp.searchsorted(te_sorted, ts, side="left")
+    next_end = te_sorted[jnp.clip(idx, 0, len(te) - 1)]
+    tol = 4 * jnp.finfo(te.dtype).eps * jnp.max(jnp.abs(te))
+    abut = (ts < next_end) & (next_end - ts <= tol) & (next_end < te)
+    return jnp.where(abut, next_end, ts), te
+
+
 def block_view(A, b):
     Nb, Mb = A.shape
     assert Nb % b == 0 and Mb % b == 0
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index c8c1f0d..a7b9aec 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -7,7 +7,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
-from smolgp.helpers import regularize
+from smolgp.helpers import exposure_edges, regularize
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.parallel.kalman import ParallelIntegratedKalmanFilter
 from smolgp.solvers.integrated.parallel.rts import ParallelIntegratedRTSSmoother
@@ -55,8 +55,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
         tmid, delta, instid = self.X  # unpack coordinates
 
         ## Construct interleaved time array of chronological exposure start/stop times
-        ts = tmid - delta / 2  # Exposure start times
-        te = tmid + delta / 2  # Exposure end times
+        ts, te = exposure_edges(tmid, delta)
         obsid = jnp.arange(len(tmid)).repeat(2)
 
         # Interleave start and end times into one array (fastest)
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 17afa5e..7e4cf72 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -9,7 +9,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
-from smolgp.helpers import regularize
+from smolgp.helpers import exposure_edges, regularize
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.kalman import IntegratedKalmanFilter
 from smolgp.solvers.integrated.rts import IntegratedRTSSmoother
@@ -56,8 +56,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
         tmid, delta, instid = self.X  # unpack coordinates
 
         ## Construct interleaved time array of chronological exposure start/stop times
-        ts = tmid - delta / 2  # Exposure start times
-        te = tmid + delta / 2  # Exposure end times
+        ts, te = exposure_edges(tmid, delta)
         obsid = jnp.arange(len(tmid)).repeat(2)
 
         # Interleave start and end times into one array (fastest)
-- 
2.43.0


From 94a0a5d20be2a6627a8e07b8aafe9909b8f4521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 24/46] fix: parallel solver evaluated the observation model at
 time lags instead of data coordinates

---
 src/smolgp/solvers/parallel/kalman.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 64bff84..eb89012 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -29,7 +29,7 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
     P0 = kernel.stationary_covariance()
     t = kernel.coord_to_sortable(X)
 
-    asso_params = make_associative_params(Phi, H, Q, R, t, y, m0, P0)
+    asso_params = make_associative_params(Phi, H, Q, R, X, t, y, m0, P0)
     A, b, C, eta, J = parallel_kalman_filter(asso_params)
     m_pred, P_pred, v, S = postprocess(Phi, H, Q, R, X, t, y, b, C, m0, P0)
     # return (A, b, C, eta, J), (m_pred, P_pred, v, S)
@@ -41,7 +41,7 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
 
 
 @jax.jit
-def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
+def make_associative_params(Phi, H, Q, R, X, t, y, m0, P0):
     """Generate the associative parameters needed for parallel Kalman
 
     See Eqns. 10, 11, 12 from Sarkka & Garcia-Fernandez (2020)
@@ -50,14 +50,13 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
     def make_first_params(
         Phi,
-        H,
+        H0,
         m0,
         P0,
         y0,
         r0,
     ):
         Phi0 = Phi(0, 0)
-        H0 = H(0)  # this is sort of unnecessary but we'll keep it for now
 
         m = Phi0 @ m0
         P = Phi0 @ P0 @ Phi0.T  # Q(0,0) = 0
@@ -76,7 +75,7 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
     def make_generic_params(
         Phi,
-        H,
+        Hk,
         Q,
         t_delta,
         y,
@@ -85,7 +84,6 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         Phi_dt = Phi(0, t_delta)
         I = jnp.eye(Phi_dt.shape[-1])
 
-        Hk = H(t_delta)  # TODO: this is wrong, pass data coordinate here
         Q_dt = Q(0, t_delta)
 
         S = Hk @ Q_dt @ Hk.T + r
@@ -101,12 +99,14 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
         return (A, b, C, eta, J)
 
-    A0, b0, C0, eta0, J0 = make_first_params(Phi, H, m0, P0, y[0], R[0])
+    H_all = jax.vmap(H)(X)  # observation model at the data coordinates
+
+    A0, b0, C0, eta0, J0 = make_first_params(Phi, H_all[0], m0, P0, y[0], R[0])
     t_delta = jnp.diff(t)
     A, b, C, eta, J = jax.vmap(
         make_generic_params,
-        in_axes=(None, None, None, 0, 0, 0),
-    )(Phi, H, Q, t_delta, y[1:], R[1:])
+        in_axes=(None, 0, None, 0, 0, 0),
+    )(Phi, H_all[1:], Q, t_delta, y[1:], R[1:])
 
     A_all = jnp.concatenate([A0[jnp.newaxis, ...], A], axis=0)
     b_all = jnp.concatenate([b0[jnp.newaxis, ...], b], axis=0)
-- 
2.43.0


From 7ff27bdc783afb4e3ce1832162229d7956d8408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 25/46] fix: dense extract_leaf_kernels dropped all=True below
 the first level

---
 src/smolgp/kernels/dense.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/dense.py b/src/smolgp/kernels/dense.py
index 0b1db42..ddc173d 100644
--- a/src/smolgp/kernels/dense.py
+++ b/src/smolgp/kernels/dense.py
@@ -21,8 +21,8 @@ def extract_leaf_kernels(kernel, all=False):
     """Recursively extract all leaf kernels from a sum or product of kernels"""
     leaf_level = (Sum, qsSum, Product, qsProduct) if all else (Sum, qsSum)
     if isinstance(kernel, leaf_level):
-        return extract_leaf_kernels(kernel.kernel1) + extract_leaf_kernels(
-            kernel.kernel2
+        return extract_leaf_kernels(kernel.kernel1, all=all) + extract_leaf_kernels(
+            kernel.kernel2, all=all
         )
     else:
         return [kernel]
-- 
2.43.0


From 15d7ba490f4e10f85894e9695711e1a067e81960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 26/46] fix: matrix exponentials lost up to half of their
 digits

jax.scipy.linalg.expm rounds the number of squarings down, so that its Pade
approximant is used outside of its range (relative errors up to 2e-8).
---
 src/smolgp/helpers.py      | 25 ++++++++++++++++++++++---
 src/smolgp/kernels/base.py |  3 +--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index b7cb484..6b8d74c 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -1,8 +1,27 @@
+import jax
 import jax.numpy as jnp
-from jax.scipy.linalg import expm
+from jax.scipy.linalg import expm as jax_expm
 from tinygp.helpers import JAXArray
 
 
+def expm(A: JAXArray, max_squarings: int = 32) -> JAXArray:
+    """
+    The matrix exponential, to full precision
+
+    :func:`jax.scipy.linalg.expm` rounds down the number of squarings it needs,
+    which costs up to half of the digits (it is accurate for small norms only).
+    """
+    norm = jax.lax.stop_gradient(jnp.linalg.norm(A, 1))
+    n_squarings = jnp.maximum(0, jnp.ceil(jnp.log2(norm / 3.9)))
+    E = jax_expm(A / 2**n_squarings)
+
+    def square(i, E):
+        return jax.lax.cond(i < n_squarings, lambda E: E @ E, lambda E: E, E)
+
+    E = jax.lax.fori_loop(0, max_squarings, square, E)
+    return jnp.where(n_squarings > max_squarings, jnp.nan, E)
+
+
 def regularize(P: JAXArray) -> JAXArray:
     """
     Add a relative jitter (of order machine epsilon) to the variances of P
@@ -91,7 +110,7 @@ def Phibar_from_VanLoan(F: JAXArray, dt: JAXArray) -> JAXArray:
     I = jnp.eye(b)
     # integrate over s/dt from 0 to 1, so that all blocks have the same units
     C = jnp.block([[F * dt, I], [Z, Z]])
-    VanLoanBlock = expm(C, max_squarings=32)
+    VanLoanBlock = expm(C)
     G3 = VanLoanBlock[:b, b:] * dt
     return G3
 
@@ -114,7 +133,7 @@ def integrals_of_expm(F: JAXArray, dt: JAXArray) -> tuple[JAXArray, JAXArray, JA
     I = jnp.eye(b)
     # integrate over s/dt from 0 to 1, so that all blocks have the same units
     C = jnp.block([[F * dt, I, Z], [Z, Z, I], [Z, Z, Z]])
-    VanLoanBlock = block_view(expm(C, max_squarings=32), b)
+    VanLoanBlock = block_view(expm(C), b)
     return VanLoanBlock[0, 0], VanLoanBlock[0, 1] * dt, VanLoanBlock[0, 2] * dt**2
 
 
diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index a1ef28a..a46f581 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -19,14 +19,13 @@ from typing import Any
 import equinox as eqx
 import jax
 import jax.numpy as jnp
-from jax.scipy.linalg import expm
 from jax.scipy.special import gammaln, factorial
 
 from tinygp.helpers import JAXArray
 from tinygp.kernels.base import Kernel
 from tinygp.solvers.quasisep.block import Block
 
-from smolgp.helpers import Q_from_VanLoan
+from smolgp.helpers import Q_from_VanLoan, expm
 
 
 def extract_leaf_kernels(kernel, all=False):
-- 
2.43.0


From d7fe0681f6bd97369fae2e880ec897ac5e6851ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 27/46] fix: a zero-length exposure at the end of another one
 could reset its integral

Same as for back-to-back exposures: round-off may order the reset of a zero-length
exposure before the end of the exposure it follows.
---
 src/smolgp/helpers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 6b8d74c..3707879 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -48,11 +48,13 @@ def exposure_edges(t: JAXArray, delta: JAXArray) -> tuple[JAXArray, JAXArray]:
     ts = t - delta / 2
     te = t + delta / 2
     te_sorted = jnp.sort(te)
-    idx = jnp.searchsorted(te_sorted, ts, side="left")
-    next_end = te_sorted[jnp.clip(idx, 0, len(te) - 1)]
     tol = 4 * jnp.finfo(te.dtype).eps * jnp.max(jnp.abs(te))
-    abut = (ts < next_end) & (next_end - ts <= tol) & (next_end < te)
-    return jnp.where(abut, next_end, ts), te
+    idx = jnp.searchsorted(te_sorted, ts + tol, side="right") - 1
+    last_end = te_sorted[jnp.maximum(idx, 0)]  # that (almost) precedes the start
+    abut = (last_end > ts) & (last_end <= ts + tol)
+    # (the start of a zero-length exposure may safely follow its own end)
+    abut = abut & ((last_end < te) | (delta == 0))
+    return jnp.where(abut, last_end, ts), te
 
 
 def block_view(A, b):
-- 
2.43.0


From 250d6826ce5c742a9bf3a55ec4e00cf72093cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 28/46] fix: smoothing started from a reset integral when the
 last observation has zero exposure

---
 src/smolgp/solvers/integrated/parallel/rts.py |  7 ++++++-
 src/smolgp/solvers/integrated/rts.py          | 13 +++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index f5dfc19..9b36193 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -131,7 +131,12 @@ def make_associative_params(
         stateid[:-1],
     )
 
-    EN, gN, LN = make_last_params(m_filter[-1], P_filter[-1])
+    # As in `start_state`, an exposure-start is represented by its pre-reset state
+    last_is_start = stateid[-1] == 0
+    EN, gN, LN = make_last_params(
+        jnp.where(last_is_start, m_pred[-1], m_filter[-1]),
+        jnp.where(last_is_start, P_pred[-1], P_filter[-1]),
+    )
 
     E_all = jnp.concatenate([E, EN[jnp.newaxis, ...]], axis=0)
     g_all = jnp.concatenate([g, gN[jnp.newaxis, ...]], axis=0)
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 2dc7e45..b99fdd0 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -96,8 +96,13 @@ def integrated_rts_smoother(
 
         return (m_hat_k, P_hat_k), (m_hat_k, P_hat_k)
 
-    # Start smoothing from final filtered state
-    init_carry = (m_filtered[-1], P_filtered[-1])
+    # Start smoothing from the final state. As in `smooth_start`, an exposure-start
+    # is represented by its pre-reset state; it is the final state whenever the
+    # last observation has zero exposure (its end sorts before its start)
+    last_is_start = stateid[-1] == 0
+    m_last = jnp.where(last_is_start, m_predicted[-1], m_filtered[-1])
+    P_last = jnp.where(last_is_start, P_predicted[-1], P_filtered[-1])
+    init_carry = (m_last, P_last)
 
     # Run backward from N-2 down to 0
     K = len(t_states)  # number of iterations
@@ -105,6 +110,6 @@ def integrated_rts_smoother(
     m_smooth_reversed, P_smooth_reversed = outputs
 
     # Reverse outputs (with final filtered=smoothed state) to match time order
-    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_filtered[-1][None, :]])
-    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_filtered[-1][None, :, :]])
+    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_last[None, :]])
+    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_last[None, :, :]])
     return m_smooth, P_smooth
-- 
2.43.0


From 2d21a4c9b053ca6691796e8139aed3376835037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 29/46] fix: smoothing took the round-off left by an integral
 that cancels for precise knowledge

---
 src/smolgp/helpers.py                            | 10 +++++++---
 src/smolgp/solvers/integrated/parallel/rts.py    |  2 +-
 src/smolgp/solvers/integrated/parallel/solver.py |  2 +-
 src/smolgp/solvers/integrated/rts.py             |  2 +-
 src/smolgp/solvers/integrated/solver.py          |  2 +-
 5 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 3707879..87d524f 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -22,17 +22,21 @@ def expm(A: JAXArray, max_squarings: int = 32) -> JAXArray:
     return jnp.where(n_squarings > max_squarings, jnp.nan, E)
 
 
-def regularize(P: JAXArray) -> JAXArray:
+def regularize(P: JAXArray, A: JAXArray, P_prev: JAXArray) -> JAXArray:
     """
-    Add a relative jitter (of order machine epsilon) to the variances of P
+    Add a relative jitter (of order machine epsilon) to the variances of
+    P = A @ P_prev @ A.T + Q, a predicted covariance
 
     The covariance of an integrated model is singular whenever an integral
     state is a known function of the other states, e.g. if no (or negligible)
     time has passed since it was reset, if the exposures of two instruments
     coincide, or if the process has no driving noise. Such directions carry no
-    information, but need to be kept invertible to get the smoothing gain.
+    information, but need to be kept invertible to get the smoothing gain. The
+    jitter is never less than the round-off in the sum of products that P is, so
+    that variances which cancel out are not mistaken for precise knowledge.
     """
     var = jnp.diagonal(P)
+    var = jnp.maximum(var, jnp.diagonal(jnp.abs(A) @ jnp.abs(P_prev) @ jnp.abs(A).T))
     eps = 16 * jnp.finfo(P.dtype).eps
     return P + jnp.diag(jnp.where(var == 0, 1.0, eps * var))
 
diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index 9b36193..d53d34e 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -106,7 +106,7 @@ def make_associative_params(
         A = Phik @ Pk @ Phik.T + Qk
         b = Pk @ Phik.T
 
-        A = regularize(A)
+        A = regularize(A, Phik, Pk)
         E = jnp.linalg.solve(A.T, b.T).T
         g = mk - E @ (Phik @ mk)
         L = Pk - E @ Phik @ Pk
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index a7b9aec..d0595e7 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -225,7 +225,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            P_reg_next = regularize(P_pred_next)  # to be inverted
+            P_reg_next = regularize(P_pred_next, A_k, P_star_pred)  # to be inverted
             G_k = jnp.linalg.solve(P_reg_next.T, (P_star_pred @ A_k.T).T).T
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index b99fdd0..cd1dc6b 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -65,7 +65,7 @@ def integrated_rts_smoother(
         # Compute smoothing gain
         Delta = t_states[k + 1] - t_states[k]
         A_k = A_aug(0, Delta)
-        P_reg_next = regularize(P_pred_next)  # to be inverted
+        P_reg_next = regularize(P_pred_next, A_k, P_k)  # to be inverted
 
         def smooth_start():
             """RTS smooth an exposure-start state"""
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 7e4cf72..2679243 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -220,7 +220,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            P_reg_next = regularize(P_pred_next)  # to be inverted
+            P_reg_next = regularize(P_pred_next, A_k, P_star_pred)  # to be inverted
             G_k = jnp.linalg.solve(P_reg_next.T, (P_star_pred @ A_k.T).T).T
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
-- 
2.43.0


From b82ab42a915121f013bcabf360dabc43f05e18cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 30/46] fix: smoothing lost all accuracy when instruments start
 exposures at almost the same time

---
 src/smolgp/helpers.py                            | 10 ++++++----
 src/smolgp/solvers/integrated/parallel/rts.py    | 15 ++++++++++++---
 src/smolgp/solvers/integrated/parallel/solver.py |  9 ++++++++-
 src/smolgp/solvers/integrated/rts.py             |  7 ++++++-
 src/smolgp/solvers/integrated/solver.py          |  9 ++++++++-
 5 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 87d524f..3aa50a7 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -24,8 +24,8 @@ def expm(A: JAXArray, max_squarings: int = 32) -> JAXArray:
 
 def regularize(P: JAXArray, A: JAXArray, P_prev: JAXArray) -> JAXArray:
     """
-    Add a relative jitter (of order machine epsilon) to the variances of
-    P = A @ P_prev @ A.T + Q, a predicted covariance
+    Add a small relative jitter to the variances of the predicted covariance
+    P = A @ P_prev @ A.T + Q
 
     The covariance of an integrated model is singular whenever an integral
     state is a known function of the other states, e.g. if no (or negligible)
@@ -33,11 +33,13 @@ def regularize(P: JAXArray, A: JAXArray, P_prev: JAXArray) -> JAXArray:
     coincide, or if the process has no driving noise. Such directions carry no
     information, but need to be kept invertible to get the smoothing gain. The
     jitter is never less than the round-off in the sum of products that P is, so
-    that variances which cancel out are not mistaken for precise knowledge.
+    that variances which cancel out are not mistaken for precise knowledge, and
+    is large enough for the gain not to amplify the round-off in a nearly known
+    direction, e.g. if two instruments start exposures at almost the same time.
     """
     var = jnp.diagonal(P)
     var = jnp.maximum(var, jnp.diagonal(jnp.abs(A) @ jnp.abs(P_prev) @ jnp.abs(A).T))
-    eps = 16 * jnp.finfo(P.dtype).eps
+    eps = jnp.finfo(P.dtype).eps ** 0.75
     return P + jnp.diag(jnp.where(var == 0, 1.0, eps * var))
 
 
diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index d53d34e..26f0d21 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -106,10 +106,10 @@ def make_associative_params(
         A = Phik @ Pk @ Phik.T + Qk
         b = Pk @ Phik.T
 
-        A = regularize(A, Phik, Pk)
-        E = jnp.linalg.solve(A.T, b.T).T
+        A_reg = regularize(A, Phik, Pk)  # to be inverted
+        E = jnp.linalg.solve(A_reg.T, b.T).T
         g = mk - E @ (Phik @ mk)
-        L = Pk - E @ Phik @ Pk
+        L = Pk - E @ A @ E.T
 
         return (E, g, L)
 
@@ -118,6 +118,15 @@ def make_associative_params(
     Qs = jax.vmap(Q_aug, in_axes=(None, 0))(0, t_delta)
     Resets = jax.vmap(RESET)(instid[:-1])
 
+    # The integral carried up to an exposure-start is reset there, thus irrelevant
+    Keep = jnp.where(
+        (stateid[1:] == 0)[:, None, None],
+        jax.vmap(RESET)(instid[1:]),
+        jnp.eye(m_pred.shape[-1]),
+    )
+    Phis = Keep @ Phis
+    Qs = Keep @ Qs @ jnp.swapaxes(Keep, -1, -2)
+
     E, g, L = jax.vmap(
         make_generic_params,
     )(
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index d0595e7..3a2c62a 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -224,8 +224,15 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             dt = t_states[k_next] - t_test[ktest]
             A_k = A_aug(dt)
 
+            # The integral carried up to an exposure-start is reset there, thus irrelevant
+            Reset_next = self.kernel.reset_matrix(instid[obsid[k_next]])
+            Keep = jnp.where(stateid[k_next] == 0, Reset_next, jnp.eye(len(m_pred_next)))
+            A_k = Keep @ A_k
+
             # RTS update
-            P_reg_next = regularize(P_pred_next, A_k, P_star_pred)  # to be inverted
+            P_reg_next = regularize(
+                Keep @ P_pred_next @ Keep.T, A_k, P_star_pred
+            )  # to be inverted
             G_k = jnp.linalg.solve(P_reg_next.T, (P_star_pred @ A_k.T).T).T
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index cd1dc6b..952da98 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -65,7 +65,12 @@ def integrated_rts_smoother(
         # Compute smoothing gain
         Delta = t_states[k + 1] - t_states[k]
         A_k = A_aug(0, Delta)
-        P_reg_next = regularize(P_pred_next, A_k, P_k)  # to be inverted
+
+        # The integral carried up to an exposure-start is reset there, thus irrelevant
+        Reset_next = RESET(instid[obsid[k + 1]])
+        Keep = jnp.where(stateid[k + 1] == 0, Reset_next, jnp.eye(len(m_k)))
+        A_k = Keep @ A_k
+        P_reg_next = regularize(Keep @ P_pred_next @ Keep.T, A_k, P_k)  # to be inverted
 
         def smooth_start():
             """RTS smooth an exposure-start state"""
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 2679243..db215ef 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -219,8 +219,15 @@ class IntegratedStateSpaceSolver(eqx.Module):
             dt = t_states[k_next] - t_test[ktest]
             A_k = A_aug(dt)
 
+            # The integral carried up to an exposure-start is reset there, thus irrelevant
+            Reset_next = self.kernel.reset_matrix(instid[obsid[k_next]])
+            Keep = jnp.where(stateid[k_next] == 0, Reset_next, jnp.eye(len(m_pred_next)))
+            A_k = Keep @ A_k
+
             # RTS update
-            P_reg_next = regularize(P_pred_next, A_k, P_star_pred)  # to be inverted
+            P_reg_next = regularize(
+                Keep @ P_pred_next @ Keep.T, A_k, P_star_pred
+            )  # to be inverted
             G_k = jnp.linalg.solve(P_reg_next.T, (P_star_pred @ A_k.T).T).T
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
-- 
2.43.0


From e6714f4e024dd471f7ab56a51a7cb6d9e1c609c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 31/46] fix: multiplying a kernel by something that is not a
 number was accepted

---
 src/smolgp/kernels/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index a46f581..ce4abaa 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -189,7 +189,7 @@ class StateSpaceModel(Kernel):
     def __mul__(self, other: Kernel | JAXArray) -> Kernel:
         if isinstance(other, StateSpaceModel):
             return Product(self, other)
-        if isinstance(other, Kernel) or jnp.ndim(other) != 0:
+        if not (eqx.is_array_like(other) and jnp.ndim(other) == 0):
             raise ValueError(
                 "StateSpaceModel kernels can only be multiplied by scalars and other "
                 "StateSpaceModel kernels"
@@ -199,7 +199,7 @@ class StateSpaceModel(Kernel):
     def __rmul__(self, other: Any) -> Kernel:
         if isinstance(other, StateSpaceModel):
             return Product(other, self)
-        if isinstance(other, Kernel) or jnp.ndim(other) != 0:
+        if not (eqx.is_array_like(other) and jnp.ndim(other) == 0):
             raise ValueError(
                 "StateSpaceModel kernels can only be multiplied by scalars and other "
                 "StateSpaceModel kernels"
-- 
2.43.0


From 0260abcc6e034739cba2e1ac9088f6603388f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 32/46] fix: matrix exponentials lost digits, or all of them,
 for time scales far from one time unit

---
 src/smolgp/helpers.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 3aa50a7..f04289f 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -4,6 +4,26 @@ from jax.scipy.linalg import expm as jax_expm
 from tinygp.helpers import JAXArray
 
 
+def balancing_scales(A: JAXArray, iterations: int = 8) -> JAXArray:
+    """
+    Powers of two, d, for which A * d / d[:, None] has rows and columns of similar size
+
+    This removes the dependence on the units of each state (e.g. of time, which enters
+    to a different power in each derivative) from the norm, and so the round-off.
+    """
+    B = jnp.abs(jax.lax.stop_gradient(A))
+    B = B - jnp.diag(jnp.diagonal(B))
+
+    def step(_, d):
+        M = B * d / d[:, None]
+        ratio = jnp.sum(M, axis=1) / jnp.sum(M, axis=0)
+        ok = jnp.isfinite(ratio) & (ratio > 0)
+        return d * jnp.where(ok, ratio, 1.0) ** 0.25
+
+    d = jax.lax.fori_loop(0, iterations, step, jnp.ones_like(B[0]))
+    return jnp.ldexp(jnp.ones_like(d), jnp.round(jnp.log2(d)).astype(int))
+
+
 def expm(A: JAXArray, max_squarings: int = 32) -> JAXArray:
     """
     The matrix exponential, to full precision
@@ -11,6 +31,9 @@ def expm(A: JAXArray, max_squarings: int = 32) -> JAXArray:
     :func:`jax.scipy.linalg.expm` rounds down the number of squarings it needs,
     which costs up to half of the digits (it is accurate for small norms only).
     """
+    A = jnp.asarray(A, dtype=jnp.result_type(A, float))
+    scales = balancing_scales(A)
+    A = A * scales / scales[:, None]
     norm = jax.lax.stop_gradient(jnp.linalg.norm(A, 1))
     n_squarings = jnp.maximum(0, jnp.ceil(jnp.log2(norm / 3.9)))
     E = jax_expm(A / 2**n_squarings)
@@ -19,6 +42,7 @@ def expm(A: JAXArray, max_squarings: int = 32) -> JAXArray:
         return jax.lax.cond(i < n_squarings, lambda E: E @ E, lambda E: E, E)
 
     E = jax.lax.fori_loop(0, max_squarings, square, E)
+    E = E * scales[:, None] / scales
     return jnp.where(n_squarings > max_squarings, jnp.nan, E)
 
 
-- 
2.43.0


From ebc2dab830f96ab3b5b57119ce526e8eb8bd8d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 33/46] fix: observing a zero exposure given as a plain number
 raised ZeroDivisionError

---
 src/smolgp/kernels/integrated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 0725932..8d3534e 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -105,7 +105,7 @@ class IntegratedStateSpaceModel(StateSpaceModel):
 
         def H_integral(t: JAXArray, delta: JAXArray, instid: int) -> JAXArray:
             """Observation model for integral state"""
-            H_z = jnp.array([1.0 / delta])
+            H_z = jnp.array([1.0]) / delta
             H_aug = jnp.zeros(self.dimension)
             H_aug = jax.lax.dynamic_update_slice(H_aug, H_z, (self.d + instid,))
             return H_aug
-- 
2.43.0


From cff8209def8849786648d4cf6f91876ba9855dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 34/46] fix: periodic kernel vanished for short length scales
 (Bessel series truncated too early)

---
 src/smolgp/kernels/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index ce4abaa..8262560 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1227,7 +1227,7 @@ class ExpSineSquared(Wrapper):
             j = self.order
             arg = 1 / self.scale
             coeff = jax.lax.cond(j == 0, lambda _: 1.0, lambda _: 2.0, j)
-            qj2 = coeff * self.Ij(j, arg) / jnp.exp(arg)
+            qj2 = coeff * self.Ij(j, arg, scaled=True)
             return qj2 * jnp.eye(self.dimension)
 
         def observation_matrix(self, X: JAXArray) -> JAXArray:
@@ -1242,15 +1242,18 @@ class ExpSineSquared(Wrapper):
             """The noise effect matrix $L$ for the PeriodicTerm"""
             return jnp.eye(self.dimension)
 
-        def Ij(self, j, x, terms=50) -> JAXArray:
+        def Ij(self, j, x, terms=500, scaled=False) -> JAXArray:
             """
             The modified Bessel function of the first kind, order j, at x.
-            Approximated via a truncated Taylor series expansion.
+            Approximated via a truncated Taylor series expansion, which needs
+            somewhat more than x/2 terms. If scaled, multiplied by exp(-x).
             """
             k = jnp.arange(terms)
             log_terms = (
                 -gammaln(k + 1) - gammaln(k + j + 1) + (2 * k + j) * jnp.log(x / 2)
             )
+            if scaled:
+                log_terms = log_terms - x
             return jnp.sum(jnp.exp(log_terms))
 
         def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
-- 
2.43.0


From fd6cdfc18d2d4a1a65b957cc8937a08ae959bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 35/46] fix: prediction before the first exposure lost accuracy
 with time in small units

Before the first exposure, integrals are arbitrary; the smoothing gain took the
(unit-less) prior variance of the ones not reset there for knowledge about them.
---
 src/smolgp/helpers.py                            | 11 +++++++++++
 src/smolgp/solvers/integrated/parallel/solver.py |  5 ++++-
 src/smolgp/solvers/integrated/solver.py          |  5 ++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index f04289f..c5acaff 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -1,3 +1,5 @@
+from functools import reduce
+
 import jax
 import jax.numpy as jnp
 from jax.scipy.linalg import expm as jax_expm
@@ -67,6 +69,15 @@ def regularize(P: JAXArray, A: JAXArray, P_prev: JAXArray) -> JAXArray:
     return P + jnp.diag(jnp.where(var == 0, 1.0, eps * var))
 
 
+def reset_all(kernel) -> JAXArray:
+    """
+    The reset matrix for the integrals of all instruments of a kernel
+
+    There are fewer instruments than states (indices past the last one reset that one)
+    """
+    return reduce(jnp.matmul, [kernel.reset_matrix(i) for i in range(kernel.dimension)])
+
+
 def exposure_edges(t: JAXArray, delta: JAXArray) -> tuple[JAXArray, JAXArray]:
     """
     The start and end times of exposures with midpoints t and lengths delta
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index 3a2c62a..03ede40 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -7,7 +7,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
-from smolgp.helpers import exposure_edges, regularize
+from smolgp.helpers import exposure_edges, regularize, reset_all
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.parallel.kalman import ParallelIntegratedKalmanFilter
 from smolgp.solvers.integrated.parallel.rts import ParallelIntegratedRTSSmoother
@@ -192,6 +192,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
         # Shorthand for matrices
         A_aug = lambda dt: self.kernel.transition_matrix(0, dt)
         Q_aug = lambda dt: self.kernel.process_noise(0, dt)
+        Reset_all = reset_all(self.kernel)
 
         def kalman(k_prev, ktest):
             """
@@ -227,6 +228,8 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             # The integral carried up to an exposure-start is reset there, thus irrelevant
             Reset_next = self.kernel.reset_matrix(instid[obsid[k_next]])
             Keep = jnp.where(stateid[k_next] == 0, Reset_next, jnp.eye(len(m_pred_next)))
+            # and the ones of any instrument start from scratch at the very first state
+            Keep = jnp.where(k_next == 0, Reset_all, Keep)
             A_k = Keep @ A_k
 
             # RTS update
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index db215ef..e7e1aa4 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -9,7 +9,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
-from smolgp.helpers import exposure_edges, regularize
+from smolgp.helpers import exposure_edges, regularize, reset_all
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.kalman import IntegratedKalmanFilter
 from smolgp.solvers.integrated.rts import IntegratedRTSSmoother
@@ -187,6 +187,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
         # Shorthand for matrices
         A_aug = lambda dt: self.kernel.transition_matrix(0, dt)
         Q_aug = lambda dt: self.kernel.process_noise(0, dt)
+        Reset_all = reset_all(self.kernel)
 
         def kalman(k_prev, ktest):
             """
@@ -222,6 +223,8 @@ class IntegratedStateSpaceSolver(eqx.Module):
             # The integral carried up to an exposure-start is reset there, thus irrelevant
             Reset_next = self.kernel.reset_matrix(instid[obsid[k_next]])
             Keep = jnp.where(stateid[k_next] == 0, Reset_next, jnp.eye(len(m_pred_next)))
+            # and the ones of any instrument start from scratch at the very first state
+            Keep = jnp.where(k_next == 0, Reset_all, Keep)
             A_k = Keep @ A_k
 
             # RTS update
-- 
2.43.0


From fed588dbee0de5f90f8f7b3be80cc27b448e5fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 36/46] fix: smoothing depended on the unit of time (badly
 scaled solves), up to losing all digits

E.g. a product of two Matern-5/2 kernels with times in seconds instead of days.
---
 src/smolgp/helpers.py                            | 13 +++++++++++++
 src/smolgp/solvers/integrated/parallel/rts.py    |  4 ++--
 src/smolgp/solvers/integrated/parallel/solver.py |  4 ++--
 src/smolgp/solvers/integrated/rts.py             |  6 +++---
 src/smolgp/solvers/integrated/solver.py          |  4 ++--
 src/smolgp/solvers/parallel/rts.py               |  4 +++-
 src/smolgp/solvers/parallel/solver.py            |  5 ++---
 src/smolgp/solvers/rts.py                        |  4 +++-
 src/smolgp/solvers/solver.py                     |  5 ++---
 9 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index c5acaff..ba44848 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -69,6 +69,19 @@ def regularize(P: JAXArray, A: JAXArray, P_prev: JAXArray) -> JAXArray:
     return P + jnp.diag(jnp.where(var == 0, 1.0, eps * var))
 
 
+def solve_scaled(P: JAXArray, B: JAXArray) -> JAXArray:
+    """
+    Solve P @ X = B for a covariance P, irrespective of the units of each state
+
+    The sizes of variances, which pivoting compares, depend on the unit of time
+    to a different power for each derivative (or integral) of the process.
+    """
+    var = jax.lax.stop_gradient(jnp.abs(jnp.diagonal(P)))
+    var = jnp.where(jnp.isfinite(var) & (var > 0), var, 1.0)
+    d = jnp.ldexp(jnp.ones_like(var), -jnp.round(jnp.log2(var) / 2).astype(int))
+    return d[:, None] * jnp.linalg.solve(d[:, None] * P * d, d[:, None] * B)
+
+
 def reset_all(kernel) -> JAXArray:
     """
     The reset matrix for the integrals of all instruments of a kernel
diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index 26f0d21..15cc97c 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
-from smolgp.helpers import regularize
+from smolgp.helpers import regularize, solve_scaled
 
 
 def ParallelIntegratedRTSSmoother(
@@ -107,7 +107,7 @@ def make_associative_params(
         b = Pk @ Phik.T
 
         A_reg = regularize(A, Phik, Pk)  # to be inverted
-        E = jnp.linalg.solve(A_reg.T, b.T).T
+        E = solve_scaled(A_reg.T, b.T).T
         g = mk - E @ (Phik @ mk)
         L = Pk - E @ A @ E.T
 
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index 03ede40..d8482f9 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -7,7 +7,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
-from smolgp.helpers import exposure_edges, regularize, reset_all
+from smolgp.helpers import exposure_edges, regularize, reset_all, solve_scaled
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.parallel.kalman import ParallelIntegratedKalmanFilter
 from smolgp.solvers.integrated.parallel.rts import ParallelIntegratedRTSSmoother
@@ -236,7 +236,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             P_reg_next = regularize(
                 Keep @ P_pred_next @ Keep.T, A_k, P_star_pred
             )  # to be inverted
-            G_k = jnp.linalg.solve(P_reg_next.T, (P_star_pred @ A_k.T).T).T
+            G_k = solve_scaled(P_reg_next.T, (P_star_pred @ A_k.T).T).T
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 952da98..80c8561 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
-from smolgp.helpers import regularize
+from smolgp.helpers import regularize, solve_scaled
 
 
 def IntegratedRTSSmoother(kernel, t_states, obsid, instid, stateid, kalman_results):
@@ -80,14 +80,14 @@ def integrated_rts_smoother(
 
             Reset = RESET(instid[obsid[k]])
             AR = A_k @ Reset
-            G_k = jnp.linalg.solve(P_reg_next.T, (P_k_pre @ AR.T).T).T
+            G_k = solve_scaled(P_reg_next.T, (P_k_pre @ AR.T).T).T
             m_hat_k = m_k_pre + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k_pre + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
 
         def smooth_end():
             """RTS smooth an exposure-end state"""
-            G_k = jnp.linalg.solve(P_reg_next.T, (P_k @ A_k.T).T).T
+            G_k = solve_scaled(P_reg_next.T, (P_k @ A_k.T).T).T
             m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index e7e1aa4..9f39ae5 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -9,7 +9,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
-from smolgp.helpers import exposure_edges, regularize, reset_all
+from smolgp.helpers import exposure_edges, regularize, reset_all, solve_scaled
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.kalman import IntegratedKalmanFilter
 from smolgp.solvers.integrated.rts import IntegratedRTSSmoother
@@ -231,7 +231,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
             P_reg_next = regularize(
                 Keep @ P_pred_next @ Keep.T, A_k, P_star_pred
             )  # to be inverted
-            G_k = jnp.linalg.solve(P_reg_next.T, (P_star_pred @ A_k.T).T).T
+            G_k = solve_scaled(P_reg_next.T, (P_star_pred @ A_k.T).T).T
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
diff --git a/src/smolgp/solvers/parallel/rts.py b/src/smolgp/solvers/parallel/rts.py
index e9859bc..391d3a1 100644
--- a/src/smolgp/solvers/parallel/rts.py
+++ b/src/smolgp/solvers/parallel/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import solve_scaled
+
 
 def ParallelRTSSmoother(kernel, X, kalman_results):
     """
@@ -48,7 +50,7 @@ def make_associative_params(Phi, Q, t, mu, P):
         A = Phi_dt @ P @ Phi_dt.T + Q_dt
         b = P @ Phi_dt.T
 
-        E = jnp.linalg.solve(A.T, b.T).T
+        E = solve_scaled(A.T, b.T).T
         g = mu - E @ (Phi_dt @ mu)
         L = P - E @ Phi_dt @ P
 
diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index f156755..412dc6e 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -8,6 +8,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import solve_scaled
 from smolgp.kernels.base import StateSpaceModel
 
 from smolgp.solvers.parallel.kalman import ParallelKalmanFilter
@@ -188,9 +189,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             # Compute smoothing gain
             # P_pred_next_inv = jnp.linalg.inv(P_pred_next)
             # G_k = P_star_pred @ A_k.T @ P_pred_next_inv # smoothing gain
-            G_k = jnp.linalg.solve(
-                P_pred_next.T, (P_star_pred @ A_k.T).T
-            ).T  # more stable
+            G_k = solve_scaled(P_pred_next.T, (P_star_pred @ A_k.T).T).T  # more stable
 
             # Update state and covariance
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
diff --git a/src/smolgp/solvers/rts.py b/src/smolgp/solvers/rts.py
index 17c3ffd..0425164 100644
--- a/src/smolgp/solvers/rts.py
+++ b/src/smolgp/solvers/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import solve_scaled
+
 
 def RTSSmoother(kernel, X, kalman_results):
     """
@@ -65,7 +67,7 @@ def rts_smoother(A, t, m_filtered, P_filtered, m_predicted, P_predicted):
         # Compute smoothing gain
         # P_pred_next_inv = jnp.linalg.inv(P_pred_next)
         # G_k = P_k @ A_k.T @ P_pred_next_inv # smoothing gain
-        G_k = jnp.linalg.solve(P_pred_next.T, (P_k @ A_k.T).T).T  # more stable
+        G_k = solve_scaled(P_pred_next.T, (P_k @ A_k.T).T).T  # more stable
 
         # Update state and covariance
         m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
diff --git a/src/smolgp/solvers/solver.py b/src/smolgp/solvers/solver.py
index 2801eb7..3881565 100644
--- a/src/smolgp/solvers/solver.py
+++ b/src/smolgp/solvers/solver.py
@@ -8,6 +8,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import solve_scaled
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.kalman import KalmanFilter
 from smolgp.solvers.rts import RTSSmoother
@@ -181,9 +182,7 @@ class StateSpaceSolver(eqx.Module):
             # Compute smoothing gain
             # P_pred_next_inv = jnp.linalg.inv(P_pred_next)
             # G_k = P_star_pred @ A_k.T @ P_pred_next_inv # smoothing gain
-            G_k = jnp.linalg.solve(
-                P_pred_next.T, (P_star_pred @ A_k.T).T
-            ).T  # more stable
+            G_k = solve_scaled(P_pred_next.T, (P_star_pred @ A_k.T).T).T  # more stable
 
             # Update state and covariance
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
-- 
2.43.0


From 0b9e850cf50cfea3208d299d0fe71f3a656706a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 37/46] fix: parallel filtering depended on the unit of time,
 up to losing all digits

E.g. sums of integrated kernels with time scales of a million time units.
---
 src/smolgp/helpers.py                         | 24 ++++++++++++++++---
 .../solvers/integrated/parallel/kalman.py     | 21 +++++++++-------
 src/smolgp/solvers/parallel/kalman.py         | 21 +++++++++-------
 3 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index ba44848..ce339eb 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -69,6 +69,26 @@ def regularize(P: JAXArray, A: JAXArray, P_prev: JAXArray) -> JAXArray:
     return P + jnp.diag(jnp.where(var == 0, 1.0, eps * var))
 
 
+def power_of_two(x: JAXArray) -> JAXArray:
+    """Round positive numbers to powers of two (and anything else to 1)"""
+    x = jax.lax.stop_gradient(x)
+    x = jnp.where(jnp.isfinite(x) & (x > 0), x, 1.0)
+    return jnp.ldexp(jnp.ones_like(x), jnp.round(jnp.log2(x)).astype(int))
+
+
+def information_scales(C: JAXArray, J: JAXArray) -> JAXArray:
+    """
+    Scales d that bring a covariance C and an information matrix J (i.e. an inverse
+    covariance), C * d * d[:, None] and J / d / d[:, None], to similar sizes
+    """
+    c = jnp.abs(jnp.diagonal(C))
+    j = jnp.abs(jnp.diagonal(J))
+    both = (c > 0) & (j > 0)
+    return power_of_two(
+        jnp.where(both, (j / c) ** 0.25, jnp.where(c > 0, c**-0.5, j**0.5))
+    )
+
+
 def solve_scaled(P: JAXArray, B: JAXArray) -> JAXArray:
     """
     Solve P @ X = B for a covariance P, irrespective of the units of each state
@@ -76,9 +96,7 @@ def solve_scaled(P: JAXArray, B: JAXArray) -> JAXArray:
     The sizes of variances, which pivoting compares, depend on the unit of time
     to a different power for each derivative (or integral) of the process.
     """
-    var = jax.lax.stop_gradient(jnp.abs(jnp.diagonal(P)))
-    var = jnp.where(jnp.isfinite(var) & (var > 0), var, 1.0)
-    d = jnp.ldexp(jnp.ones_like(var), -jnp.round(jnp.log2(var) / 2).astype(int))
+    d = power_of_two(jnp.abs(jnp.diagonal(P)) ** -0.5)
     return d[:, None] * jnp.linalg.solve(d[:, None] * P * d, d[:, None] * B)
 
 
diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 8574b01..931e6ee 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import information_scales
+
 
 def ParallelIntegratedKalmanFilter(
     kernel,
@@ -245,14 +247,17 @@ def _combine_per_pair(left, right):
     dim = Ai.shape[-1]
     I = jnp.eye(dim)
 
-    D = I + Ci @ Jj
-    E = I + Jj @ Ci
-
-    Aij = Aj @ jnp.linalg.solve(D, Ai)
-    bij = Aj @ jnp.linalg.solve(D, bi + Ci @ etaj) + bj
-    Cij = Aj @ jnp.linalg.solve(D, Ci) @ Aj.T + Cj
-    etaij = Ai.T @ jnp.linalg.solve(E, etaj - Jj @ bi) + etai
-    Jij = Ai.T @ jnp.linalg.solve(E, Jj) @ Ai + Ji
+    # Use similar units for all states (pivoting compares sizes)
+    d = information_scales(Ci, Jj)
+    u = 1 / d
+    D = I + d[:, None] * (Ci @ Jj) * u
+    E = I + u[:, None] * (Jj @ Ci) * d
+
+    Aij = (Aj * u) @ jnp.linalg.solve(D, d[:, None] * Ai)
+    bij = (Aj * u) @ jnp.linalg.solve(D, d * (bi + Ci @ etaj)) + bj
+    Cij = (Aj * u) @ jnp.linalg.solve(D, d[:, None] * Ci) @ Aj.T + Cj
+    etaij = (Ai.T * d) @ jnp.linalg.solve(E, u * (etaj - Jj @ bi)) + etai
+    Jij = (Ai.T * d) @ jnp.linalg.solve(E, u[:, None] * Jj) @ Ai + Ji
 
     Cij = 0.5 * (Cij + Cij.T)
     Jij = 0.5 * (Jij + Jij.T)
diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index eb89012..110c1ec 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import information_scales
+
 
 def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
     """
@@ -129,14 +131,17 @@ def _combine_per_pair(left, right):
     dim = Ai.shape[-1]
     I = jnp.eye(dim)
 
-    D = I + Ci @ Jj
-    E = I + Jj @ Ci
-
-    Aij = Aj @ jnp.linalg.solve(D, Ai)
-    bij = Aj @ jnp.linalg.solve(D, bi + Ci @ etaj) + bj
-    Cij = Aj @ jnp.linalg.solve(D, Ci) @ Aj.T + Cj
-    etaij = Ai.T @ jnp.linalg.solve(E, etaj - Jj @ bi) + etai
-    Jij = Ai.T @ jnp.linalg.solve(E, Jj) @ Ai + Ji
+    # Use similar units for all states (pivoting compares sizes)
+    d = information_scales(Ci, Jj)
+    u = 1 / d
+    D = I + d[:, None] * (Ci @ Jj) * u
+    E = I + u[:, None] * (Jj @ Ci) * d
+
+    Aij = (Aj * u) @ jnp.linalg.solve(D, d[:, None] * Ai)
+    bij = (Aj * u) @ jnp.linalg.solve(D, d * (bi + Ci @ etaj)) + bj
+    Cij = (Aj * u) @ jnp.linalg.solve(D, d[:, None] * Ci) @ Aj.T + Cj
+    etaij = (Ai.T * d) @ jnp.linalg.solve(E, u * (etaj - Jj @ bi)) + etai
+    Jij = (Ai.T * d) @ jnp.linalg.solve(E, u[:, None] * Jj) @ Ai + Ji
 
     Cij = 0.5 * (Cij + Cij.T)
     Jij = 0.5 * (Jij + Jij.T)
-- 
2.43.0


From e974d13a59da6348a0aef46a70ffd721f90ac351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 38/46] fix: dense integrated SHO kernel was inaccurate for
 very short exposures

Exposures of 1e-8 to 1e-6 oscillator periods were off by up to several percent.
---
 src/smolgp/kernels/dense.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/dense.py b/src/smolgp/kernels/dense.py
index ddc173d..61c5ea7 100644
--- a/src/smolgp/kernels/dense.py
+++ b/src/smolgp/kernels/dense.py
@@ -457,8 +457,9 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         # significantly less than the SHO timescale to be
         # functionally zero, then both obs are zero-exposure
         # so we can simply use the latent kernel with Delta
+        # (the integrals below lose digits as the square of this ratio)
         timescale = 2 * jnp.pi / self.w
-        use_latent = jnp.abs(delta1 / timescale) < 1e-8
+        use_latent = jnp.abs(delta1 / timescale) < 3e-5
         k = jnp.where(use_latent, self.latent_process(Delta), k)
 
         # We might also have a finite exposure (obs1) but
@@ -466,7 +467,7 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         # This can come up when conditioning the GP to
         # determine the "true" latent curve
         notothers = ~use_latent
-        case0 = jnp.abs(delta2 / timescale) < 1e-8
+        case0 = jnp.abs(delta2 / timescale) < 1e-6
         k = jnp.where(case0 & notothers, self.full_single_integral(Delta, delta1), k)
 
         ##### Finite-exposure cases #####
-- 
2.43.0


From 2e337d5e50c30e200a021b1f86cd0dd604af717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 39/46] fix: dense SHO kernels were wrong for overdamped
 oscillators

The damping factor is imaginary for Q < 1/2 (hyperbolic rather than circular functions).
---
 src/smolgp/kernels/dense.py | 56 ++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/smolgp/kernels/dense.py b/src/smolgp/kernels/dense.py
index 61c5ea7..72be6f4 100644
--- a/src/smolgp/kernels/dense.py
+++ b/src/smolgp/kernels/dense.py
@@ -63,6 +63,17 @@ def unpack_coordinates(X1, X2):
     return (t1, delta1, instid1), (t2, delta2, instid2)
 
 
+def damping_factor(Q):
+    """The damping factor eta, which is imaginary for overdamped oscillators"""
+    return jnp.sqrt(1 - 1 / (4 * Q**2) + 0j)
+
+
+def decaying_cos_sin(y, a):
+    """exp(-a*y) times the cosine and sine of y (without overflow if y is imaginary)"""
+    plus, minus = jnp.exp(1j * y - a * y), jnp.exp(-1j * y - a * y)
+    return (plus + minus) / 2, (plus - minus) / 2j
+
+
 ################# Full (dense) SHO kernel  #################
 class SHOKernel(tinygp.kernels.Kernel):
     S: jax.Array | float
@@ -142,11 +153,10 @@ class SHOKernel(tinygp.kernels.Kernel):
         Delta = jnp.abs(t1 - t2)
 
         # Calculate the kernel
-        eta = jnp.sqrt(jnp.abs(1 - 1 / (4 * self.Q**2)))  # damping factor
-        k = jnp.cos(eta * self.w * Delta) + 1 / (2 * eta * self.Q) * jnp.sin(
-            eta * self.w * Delta
-        )
-        return self.sig**2 * jnp.exp(-Delta / self.tau) * k
+        eta = damping_factor(self.Q)
+        a = 1 / (2 * self.Q * eta)
+        cos, sin = decaying_cos_sin(eta * self.w * Delta, a)
+        return self.sig**2 * (cos + a * sin).real
 
     def __repr__(self):
         s = f"{type(self)}(\n"
@@ -225,7 +235,7 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         else:
             raise ValueError("Must specifiy parameter values!")
 
-        self.eta = jnp.sqrt(jnp.abs(1 - 1 / (4 * self.Q**2)))  # damping factor
+        self.eta = damping_factor(self.Q)
         self.a = 1 / (2 * self.Q * self.eta)  # common quantity in integrals
 
     def __repr__(self):
@@ -258,10 +268,8 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         """
         Latent kernel for given time difference Delta
         """
-        k = jnp.cos(self.eta * self.w * Delta) + 1 / (2 * self.eta * self.Q) * jnp.sin(
-            self.eta * self.w * Delta
-        )
-        return self.sig**2 * jnp.exp(-Delta / self.tau) * k
+        cos, sin = decaying_cos_sin(self.eta * self.w * Delta, self.a)
+        return self.sig**2 * (cos + self.a * sin).real
 
     # def latent_process(self, X1, X2):
     #     '''
@@ -278,19 +286,15 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
 
     def I0(self, y):
         """Helper function for single integral (Eq. 11 in L26)"""
-        return jnp.exp(-self.a * y) * (
-            (1 - self.a**2) * jnp.sin(y) - 2 * self.a * jnp.cos(y)
-        )
+        cos, sin = decaying_cos_sin(y, self.a)
+        return (1 - self.a**2) * sin - 2 * self.a * cos
 
     def I1(self, lower, upper):
         """Helper function for double integrals (Eq. 14 in L26)"""
 
         def f1(y):
-            num = (
-                jnp.exp(-self.a * y)
-                * (1 - self.a**2)
-                * (jnp.cos(y) + self.a * jnp.sin(y))
-            )
+            cos, sin = decaying_cos_sin(y, self.a)
+            num = (1 - self.a**2) * (cos + self.a * sin)
             den = self.eta * self.w * (1 + self.a**2)
             return num / den
 
@@ -300,9 +304,8 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         """Helper function for double integrals (Eq. 15 in L26)"""
 
         def f2(y):
-            num = (
-                -2 * self.a * jnp.exp(-self.a * y) * (jnp.sin(y) - self.a * jnp.cos(y))
-            )
+            cos, sin = decaying_cos_sin(y, self.a)
+            num = -2 * self.a * (sin - self.a * cos)
             den = self.eta * self.w * (1 + self.a**2)
             return num / den
 
@@ -322,9 +325,10 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         y4 = self.eta * self.w * ((delta1 - delta2) / 2 + Delta - delta1)  # Eq. 12
 
         pre = (self.S * self.Q) / (delta1 * delta2 * self.eta * (1 + self.a**2))
-        return pre * (
-            self.I1(y1, y2) - self.I2(y1, y2) - self.I1(y3, y4) + self.I2(y3, y4)
-        )
+        return (
+            pre
+            * (self.I1(y1, y2) - self.I2(y1, y2) - self.I1(y3, y4) + self.I2(y3, y4))
+        ).real
 
     def integrated_overlap(self, delta):
         """
@@ -338,7 +342,7 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         y1, y2 = self.eta * self.w * delta, 0.0
 
         pre = (2 * self.S * self.Q) / (delta * delta * self.eta * (1 + self.a**2))
-        return pre * (self.I1(y1, y2) - self.I2(y1, y2) + 2 * self.a * delta)
+        return (pre * (self.I1(y1, y2) - self.I2(y1, y2) + 2 * self.a * delta)).real
 
     def integrated_single(self, Delta, delta):
         """
@@ -352,7 +356,7 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         y2 = self.eta * self.w * (Delta - delta / 2)
 
         pre = -(self.S * self.Q) / (delta * self.eta)
-        return pre / (1 + self.a**2) * (self.I0(y2) - self.I0(y1))
+        return (pre / (1 + self.a**2) * (self.I0(y2) - self.I0(y1))).real
 
     def full_single_integral(self, Delta, delta):
         """
-- 
2.43.0


From fa1ede822fc12f5e8afd87226b4b45c4fd2b9f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 40/46] fix: matrix exponentials lost digits of the smaller Van
 Loan blocks for short time steps

The Pade approximant is only accurate relative to the largest elements. Use a
Taylor series instead, which does not mix the blocks and needs no solve.
---
 src/smolgp/helpers.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index ce339eb..d4fc6a7 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -2,11 +2,10 @@ from functools import reduce
 
 import jax
 import jax.numpy as jnp
-from jax.scipy.linalg import expm as jax_expm
 from tinygp.helpers import JAXArray
 
 
-def balancing_scales(A: JAXArray, iterations: int = 8) -> JAXArray:
+def balancing_scales(A: JAXArray, iterations: int = 16) -> JAXArray:
     """
     Powers of two, d, for which A * d / d[:, None] has rows and columns of similar size
 
@@ -26,19 +25,26 @@ def balancing_scales(A: JAXArray, iterations: int = 8) -> JAXArray:
     return jnp.ldexp(jnp.ones_like(d), jnp.round(jnp.log2(d)).astype(int))
 
 
-def expm(A: JAXArray, max_squarings: int = 32) -> JAXArray:
+def expm(A: JAXArray, n_terms: int = 18, max_squarings: int = 32) -> JAXArray:
     """
     The matrix exponential, to full precision
 
-    :func:`jax.scipy.linalg.expm` rounds down the number of squarings it needs,
-    which costs up to half of the digits (it is accurate for small norms only).
+    :func:`jax.scipy.linalg.expm` rounds down the number of squarings it needs, which
+    costs up to half of the digits (it is accurate for small norms only). Also, its
+    errors are relative to the largest elements, but the blocks of a Van Loan matrix
+    exponential are integrals of very different sizes (e.g. for short time steps).
+    A Taylor series does not mix these, and needs no solve.
     """
     A = jnp.asarray(A, dtype=jnp.result_type(A, float))
     scales = balancing_scales(A)
     A = A * scales / scales[:, None]
     norm = jax.lax.stop_gradient(jnp.linalg.norm(A, 1))
-    n_squarings = jnp.maximum(0, jnp.ceil(jnp.log2(norm / 3.9)))
-    E = jax_expm(A / 2**n_squarings)
+    n_squarings = jnp.maximum(0, jnp.ceil(jnp.log2(norm)))
+    A = A / 2**n_squarings
+    I = jnp.eye(len(A), dtype=A.dtype)
+    E = I
+    for n in range(n_terms, 0, -1):
+        E = I + A @ E / n
 
     def square(i, E):
         return jax.lax.cond(i < n_squarings, lambda E: E @ E, lambda E: E, E)
-- 
2.43.0


From b568d2860a4f23cdeaac29bfd6855afb9c72c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 41/46] fix: sequential Kalman filter passed only the times to
 the observation model

---
 src/smolgp/solvers/kalman.py | 9 ++++-----
 src/smolgp/solvers/solver.py | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index 132e946..ef54b3f 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -31,7 +31,7 @@ def KalmanFilter(kernel, X, y, noise, return_v_S=False):
         P0 = P0.to_dense()  # needed for carry in jax.lax.scan
 
     t = kernel.coord_to_sortable(X)
-    output = kalman_filter(A, Q, H, R, t, y, m0, P0)
+    output = kalman_filter(A, Q, H, R, t, X, y, m0, P0)
     if return_v_S:
         return output
     else:
@@ -40,7 +40,7 @@ def KalmanFilter(kernel, X, y, noise, return_v_S=False):
 
 
 @jax.jit
-def kalman_filter(A, Q, H, R, t, y, m0, P0):
+def kalman_filter(A, Q, H, R, t, X, y, m0, P0):
     """
     Jax implementation of the Kalman filter algorithm
 
@@ -90,9 +90,8 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
         P_pred = A_prev @ P_prev @ A_prev.T + Q_prev
 
         # Update (Eq. 4.21)
-        ## TODO: let t be a tuple and use coord_to_sortable to get time axis out
-        ##       That way we can pass the full t into H and it can use e.g. instid etc.
-        H_k = H(t[k])  # observation model for this time step
+        X_k = jax.tree_util.tree_map(lambda x: x[k], X)
+        H_k = H(X_k)  # observation model for this time step
         y_pred = H_k @ m_pred  # predicted observation
         v_k = y[k] - y_pred  # "innovation" or "surprise" term
         S_k = H_k @ P_pred @ H_k.T + R[k]  # uncertainy in predicted observation
diff --git a/src/smolgp/solvers/solver.py b/src/smolgp/solvers/solver.py
index 3881565..039f3d0 100644
--- a/src/smolgp/solvers/solver.py
+++ b/src/smolgp/solvers/solver.py
@@ -49,7 +49,7 @@ class StateSpaceSolver(eqx.Module):
     def Kalman(self, y, return_v_S=False) -> Any:
         """Wrapper for Kalman filter used with this solver"""
         return KalmanFilter(
-            self.kernel, self.t_states, y, self.noise, return_v_S=return_v_S
+            self.kernel, self.X, y, self.noise, return_v_S=return_v_S
         )
 
     def RTS(self, kalman_results) -> Any:
-- 
2.43.0


From ef4f21dc55a29d7cd8b616ebc883bc9ccf3abfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 42/46] fix: component means of a model conditioned at test
 points were those at the data

---
 src/smolgp/gp.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 5174fa0..320e9cd 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -335,6 +335,7 @@ class GaussianProcess(eqx.Module):
     noise: Noise
     solver: StateSpaceSolver
     states: ConditionedStates
+    at_data: bool = eqx.field(static=True)  # False if conditioned at other points
 
     def __init__(
         self,
@@ -350,6 +351,7 @@ class GaussianProcess(eqx.Module):
         covariance_value: Any | None = None,
         states: JAXArray | None = None,
         use_unique_names: bool = True,
+        at_data: bool = True,
         **solver_kwargs: Any,
     ):
         # First, assign unique kernel names if needed
@@ -390,6 +392,7 @@ class GaussianProcess(eqx.Module):
         self.mean = mean_value
         self.var = variance_value
         self.states = states
+        self.at_data = at_data
         if self.mean.ndim != 1:
             raise ValueError(
                 f"Invalid mean shape: expected ndim = 1, got ndim={self.mean.ndim}"
@@ -587,6 +590,7 @@ class GaussianProcess(eqx.Module):
                 X, component=kernel.name
             )
 
+        at_data = X_test is None
         if X_test is not None:
             # If X_test was given, also predit at those points
             mean, cov = self.solver.predict(X_test, states())
@@ -609,6 +613,7 @@ class GaussianProcess(eqx.Module):
             mean_value=mu,
             variance_value=var,
             states=states,
+            at_data=at_data,
         )
 
         # Return the likelihood and conditioned GP
@@ -679,6 +684,9 @@ class GaussianProcess(eqx.Module):
                 observation_model=observation_model,
             )
         else:
+            if not self.at_data and kernel is not None and X_test is None:
+                # self.X are the points we were conditioned at, not the data
+                X_test = self.X
             if X_test is None:
                 # If no X_test given, predict at the data points
                 if return_full_state:
@@ -846,8 +854,13 @@ class GaussianProcess(eqx.Module):
                 H += self.kernel.observation_model(X, component=name)
             return H
 
-        ## Project at data
-        component_mean, component_var = self.states.project_at_data(H_comp)
+        ## Project at data (or where else we were conditioned)
+        if self.at_data:
+            component_mean, component_var = self.states.project_at_data(H_comp)
+        else:
+            component_mean, component_var = self.predict(
+                self.X, return_var=True, observation_model=H_comp
+            )
 
         if return_var:
             return component_mean, component_var
-- 
2.43.0


From 5d9fb59d3fe3c0af955ddb5374087364ae5d0a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 43/46] fix: integrated models ignored the observation matrix
 of their base model

---
 src/smolgp/kernels/integrated.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 8d3534e..bec7b53 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -78,13 +78,17 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         else:
             return X
 
+    def base_observation_row(self, X: JAXArray = 0.0) -> JAXArray:
+        """The (1-D) observation model of the base model, i.e. what gets integrated"""
+        return jnp.zeros(self.d) + self.base_model.observation_matrix(X).reshape(self.d)
+
     def design_matrix(self) -> JAXArray:
         """The augmented design (also called the feedback) matrix for the process, $F$"""
         F = self.base_model.design_matrix()
         F_aug = jnp.zeros((self.dimension, self.dimension))
         F_aug = F_aug.at[: self.d, : self.d].set(F)
         for i in range(self.num_insts):
-            F_aug = F_aug.at[self.d + i, 0].set(1.0)
+            F_aug = F_aug.at[self.d + i, : self.d].set(self.base_observation_row())
         return F_aug
 
     def stationary_covariance(self) -> JAXArray:
@@ -112,8 +116,7 @@ class IntegratedStateSpaceModel(StateSpaceModel):
 
         def H_latent(t: JAXArray, instid: int) -> JAXArray:
             """Observation model for latent (non-integral) state"""
-            # H_x = self.base_model.observation_model(X) # TODO: use this to get the shapes right
-            H_x = jnp.zeros(self.d).at[0].set(1)  # hardcoded 1-D version for now
+            H_x = self.base_observation_row(t)
             H_aug = jnp.zeros(self.dimension)
             H_aug = jax.lax.dynamic_update_slice(H_aug, H_x, (0,))
             return H_aug
@@ -165,7 +168,7 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         PHI = self.base_model.transition_matrix(t1, t2)
-        INTPHI = self.integrated_transition_matrix(t1, t2)[0, :]
+        INTPHI = self.base_observation_row() @ self.integrated_transition_matrix(t1, t2)
         PHIAUG = jnp.eye(self.dimension)
         PHIAUG = PHIAUG.at[: self.d, : self.d].set(PHI)
         for i in range(self.num_insts):
@@ -192,9 +195,10 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         Pinf = self.base_model.stationary_covariance()
         Phi, Phibar, Phibarbar = integrals_of_expm(F, dt)
 
-        Qaug12 = (Phibar @ Pinf - Phi @ Pinf @ Phibar.T)[:, :1]
+        H = self.base_observation_row()[None, :]
+        Qaug12 = (Phibar @ Pinf - Phi @ Pinf @ Phibar.T) @ H.T
         Qaug21 = Qaug12.T
-        Qaug22 = (2 * Phibarbar @ Pinf - Phibar @ Pinf @ Phibar.T)[:1, :1]
+        Qaug22 = H @ (2 * Phibarbar @ Pinf - Phibar @ Pinf @ Phibar.T) @ H.T
         return Qaug12, Qaug21, Qaug22
 
     # @partial(
-- 
2.43.0


From c683512b30d4e5df5a08ee1a1fd277261c6de0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 44/46] fix: sequential filter failed for integer SHO and
 Constant parameters

---
 src/smolgp/solvers/kalman.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index ef54b3f..e7e7b98 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -29,6 +29,7 @@ def KalmanFilter(kernel, X, y, noise, return_v_S=False):
     P0 = kernel.stationary_covariance()
     if not isinstance(P0, JAXArray):
         P0 = P0.to_dense()  # needed for carry in jax.lax.scan
+    P0 = P0.astype(jnp.result_type(P0, m0))  # also if the parameters are integers
 
     t = kernel.coord_to_sortable(X)
     output = kalman_filter(A, Q, H, R, t, X, y, m0, P0)
-- 
2.43.0


From ef7602b6db86ea0cefbf8ae01da7761d658bdae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:06 +0000
Subject: [PATCH 45/46] fix: predictions at the data ignored a given
 observation model

---
 src/smolgp/gp.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 320e9cd..89cac6c 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -684,7 +684,8 @@ class GaussianProcess(eqx.Module):
                 observation_model=observation_model,
             )
         else:
-            if not self.at_data and kernel is not None and X_test is None:
+            projected = kernel is not None or observation_model is not None
+            if not self.at_data and projected and X_test is None:
                 # self.X are the points we were conditioned at, not the data
                 X_test = self.X
             if X_test is None:
@@ -693,16 +694,18 @@ class GaussianProcess(eqx.Module):
                     mu = self.states.smoothed_mean
                     var = self.states.smoothed_cov
                 else:
-                    if kernel is None:
-                        # already computed here
-                        mu, var = self.loc, self.var
-                    else:
+                    if kernel is not None:
                         # extract component kernel & project
                         name = kernel if isinstance(kernel, str) else kernel.name
                         H_comp = lambda X: self.kernel.observation_model(
                             X, component=name
                         )
                         mu, var = self.states.project_at_data(H_comp)
+                    elif observation_model is not None:
+                        mu, var = self.states.project_at_data(observation_model)
+                    else:
+                        # already computed here
+                        mu, var = self.loc, self.var
             else:
                 # Predicting at new test points
                 H_test = (
-- 
2.43.0


From a38ef40375c8a4349a181e74ffe751582e0face1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 46/46] fix: kernel evaluation swapped the observations of two
 coordinates observed differently

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 8262560..d4327e3 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -218,7 +218,7 @@ class StateSpaceModel(Kernel):
         h2 = self.observation_model(X2)
         return jnp.where(
             self.coord_to_sortable(X1) < self.coord_to_sortable(X2),
-            (h2 @ Pinf @ self.transition_matrix(X1, X2).T @ h1.T).squeeze(),
+            (h1 @ Pinf @ self.transition_matrix(X1, X2).T @ h2.T).squeeze(),
             (h1 @ self.transition_matrix(X2, X1) @ Pinf @ h2.T).squeeze(),
         )
 
-- 
2.43.0

