From 8c0588d16ac2bd0b551c060c22b757897d00e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 01/33] fix: give scaled kernels a name and scale their process
 noise

---
 src/smolgp/kernels/base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 5bef960..95db2ec 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -478,9 +478,22 @@ class Scale(Wrapper):
 
     scale: JAXArray | float
 
+    def __init__(
+        self,
+        kernel: StateSpaceModel,
+        scale: JAXArray | float,
+        name: str | None = None,
+    ):
+        self.kernel = kernel
+        self.scale = scale
+        self.name = f"Scale({kernel.name})" if name is None else name
+
     def stationary_covariance(self) -> JAXArray:
         return self.scale * self.kernel.stationary_covariance()
 
+    def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        return self.scale * self.kernel.process_noise(X1, X2)
+
     # TODO: also scale Qc?
     def noise(self) -> JAXArray:
         return self.scale * self.kernel.noise()
-- 
2.43.0


From e8f25502fd86882d9e691ab5dbe104ee03fbe01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 02/33] fix: transition matrix of the constant kernel

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 95db2ec..2fe4eaf 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -560,7 +560,7 @@ class Constant(StateSpaceModel):
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The transition matrix A_k for a Constant process"""
         del X1, X2
-        return self.eye(self.dimension)
+        return jnp.eye(self.dimension)
 
     def process_noise(self, X1, X2, use_van_loan=False):
         """The process noise Q_k for a Constant process"""
-- 
2.43.0


From 16d092981b9b08bc1825b709511668e90bc1667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 03/33] fix: Exp transition matrix for plain Python times

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 2fe4eaf..5ef9dd6 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -802,7 +802,7 @@ class Exp(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return jnp.exp(-dt[None, None] / self.scale)
+        return jnp.array([[jnp.exp(-dt / self.scale)]])
 
     def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The process noise Q_k for the Exp process"""
-- 
2.43.0


From b78bb8dff732171141ea5e9aa06fc0b05f86a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 04/33] fix: evaluate_diag returns a scalar, so kernel(X) works

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 5ef9dd6..3b60ac8 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -226,7 +226,7 @@ class StateSpaceModel(Kernel):
     def evaluate_diag(self, X: JAXArray) -> JAXArray:
         """For state space kernels, the variance is simple to compute"""
         h = self.observation_model(X)
-        return h @ self.stationary_covariance() @ h.T
+        return (h @ self.stationary_covariance() @ h.T).squeeze()
 
     def psd(self, omega: JAXArray) -> JAXArray:
         """
-- 
2.43.0


From 14c3c21b7ab73c0cd2f51c9af98c1cec7c526058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 05/33] fix: keep the data axis when projecting a single point

---
 src/smolgp/gp.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 829b294..86dc776 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -142,8 +142,8 @@ class ConditionedStates(eqx.Module):
         @jax.jit
         def project(X, m, P):
             H = observation_model(X)
-            mu = H @ m
-            var = H @ P @ H.T
+            mu = (H @ m).squeeze()
+            var = (H @ P @ H.T).squeeze()
             return mu, var
 
         N = jnp.array(self.X).shape[-1]
@@ -153,7 +153,7 @@ class ConditionedStates(eqx.Module):
         m_sel = jnp.take(self.smoothed_mean, idx, axis=0)
         P_sel = jnp.take(self.smoothed_cov, idx, axis=0)
         mu, var = jax.vmap(project)(self.X, m_sel, P_sel)
-        return mu.squeeze(), var.squeeze()
+        return mu, var
 
 
 class PredictedStates(eqx.Module):
@@ -188,12 +188,10 @@ class PredictedStates(eqx.Module):
         """
 
         def _project(H, m):
-            mu = H @ m
-            return mu
+            return (H @ m).squeeze()
 
         H = jax.vmap(observation_model)(self.t_states)
-        mu = jax.vmap(_project)(H, self.mean)
-        return mu.squeeze()
+        return jax.vmap(_project)(H, self.mean)
 
     def project_variance(self, observation_model) -> JAXArray:
         """
@@ -201,12 +199,10 @@ class PredictedStates(eqx.Module):
         """
 
         def _project(H, P):
-            var = H @ P @ H.T
-            return var
+            return (H @ P @ H.T).squeeze()
 
         H = jax.vmap(observation_model)(self.t_states)
-        var = jax.vmap(_project)(H, self.cov)
-        return var.squeeze()
+        return jax.vmap(_project)(H, self.cov)
 
     @property
     def loc(self) -> JAXArray:
@@ -677,10 +673,10 @@ class GaussianProcess(eqx.Module):
                             X, component=name
                         )
                     H = jax.vmap(H_test)(X_test)
-                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean).squeeze()
-                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(
+                    mu = jax.vmap(lambda H_i, m: (H_i @ m).squeeze())(H, mean)
+                    var = jax.vmap(lambda H_i, P: (H_i @ P @ H_i.T).squeeze())(
                         H, variance
-                    ).squeeze()
+                    )
 
         if return_var:
             return mu, var
-- 
2.43.0


From 0276e08d4705c5190db043fb6ec091f97e2ca323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 06/33] fix: condition(y, X_test) predicts from the conditioned
 states

---
 src/smolgp/gp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 86dc776..f42abf5 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -549,7 +549,10 @@ class GaussianProcess(eqx.Module):
 
         if X_test is not None:
             # If X_test was given, also predit at those points
-            mu, var = self.solver.predict(X_test, conditioned_results)
+            mean, cov = self.solver.predict(X_test, states())
+            H = jax.vmap(observation_model)(X_test)
+            mu = jax.vmap(lambda H_i, m: (H_i @ m).squeeze())(H, mean)
+            var = jax.vmap(lambda H_i, P: (H_i @ P @ H_i.T).squeeze())(H, cov)
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-- 
2.43.0


From 28924f6332604952377709bfb15304d02ae4437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 07/33] fix: underflow cutoffs of the SHO process noise
 relative to its scale

---
 src/smolgp/kernels/base.py       | 5 +++--
 src/smolgp/kernels/integrated.py | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 3b60ac8..63c6778 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -713,9 +713,10 @@ class SHO(StateSpaceModel):
             Q12 = Q21 = exp * (w * sinsq / (n2 * q))
             Q22 = w2 * (-expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2)))
             Q = jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
+            tiny = 1e-14 * jnp.square(self.sigma) * jnp.array([[1, w], [w, w2]])
             return jnp.where(
-                jnp.abs(Q) < 1e-14, jnp.zeros_like(Q), Q
-            )  # prevent underflows
+                jnp.abs(Q) < tiny, jnp.zeros_like(Q), Q
+            )  # prevent underflows (relative to the scale of each entry)
 
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index ef07155..d8eb4a4 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -403,9 +403,11 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
             Qaug12 = sigma2 * jnp.array([[iQ12_1], [iQ12_2]])
             Qaug22 = sigma2 * jnp.array([[iQ22]])
-            # Prevent underflows
-            Qaug12 = jnp.where(jnp.abs(Qaug12) < 1e-14, jnp.zeros_like(Qaug12), Qaug12)
-            Qaug22 = jnp.where(jnp.abs(Qaug22) < 1e-14, jnp.zeros_like(Qaug22), Qaug22)
+            # Prevent underflows (relative to the scale of each entry)
+            tiny12 = 1e-14 * sigma2 * jnp.array([[1 / w], [1]])
+            tiny22 = 1e-14 * sigma2 / w2
+            Qaug12 = jnp.where(jnp.abs(Qaug12) < tiny12, jnp.zeros_like(Qaug12), Qaug12)
+            Qaug22 = jnp.where(jnp.abs(Qaug22) < tiny22, jnp.zeros_like(Qaug22), Qaug22)
             Qaug21 = Qaug12.T
             return Qaug12, Qaug21, Qaug22
 
-- 
2.43.0


From 9e641f3660c40cae91b7ad830600ac60b353ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 08/33] fix: generic Matern kernel keeps the name it is given

---
 src/smolgp/kernels/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 63c6778..53903ea 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1313,7 +1313,7 @@ class Matern(StateSpaceModel):
         nu: JAXArray | float,
         scale: JAXArray | float,
         sigma: JAXArray | float = jnp.ones(()),
-        name: str = "Matern",
+        name: str | None = None,
         **kwargs,
     ):
         assert jnp.isclose(nu % 1, 0.5), (
@@ -1322,7 +1322,7 @@ class Matern(StateSpaceModel):
         self.nu = nu
         self.scale = scale
         self.sigma = sigma
-        self.name = f"Matern{self.nu * 2:.0f}{2}"
+        self.name = f"Matern{self.nu * 2:.0f}{2}" if name is None else name
         self.lam = jnp.sqrt(2 * self.nu) / self.scale
 
     @property
-- 
2.43.0


From 3f58707176c38a34875260010bcdfcab069334da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 09/33] fix: component extraction of product kernels

---
 src/smolgp/kernels/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 53903ea..c2e6f14 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -400,10 +400,9 @@ class Product(StateSpaceModel):
         return jnp.kron(Pinf1, Q2) + jnp.kron(Q1, Pinf2) - jnp.kron(Q1, Q2)
 
     def observation_model(self, X: JAXArray, component=None) -> JAXArray:
-        """H = H1 ⊗ H2 with component extraction"""
-        H1 = self.kernel1.observation_model(X, component=component)
-        H2 = self.kernel2.observation_model(X, component=component)
-        return jnp.kron(H1, H2)
+        """H = H1 ⊗ H2 with component extraction (the product is one component)"""
+        keep = (component is None) or (self.name == component)
+        return self.observation_matrix(X) * int(keep)
 
     def observation_matrix(self, X: JAXArray) -> JAXArray:
         """H = H1 ⊗ H2"""
-- 
2.43.0


From 19014b4428aa7ce30cff86b5a54457a5b4a78e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 10/33] fix: unique names for models with product components

---
 src/smolgp/gp.py           | 8 ++------
 src/smolgp/kernels/base.py | 4 ++--
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index f42abf5..2eb6674 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -16,7 +16,7 @@ from tinygp import kernels, means
 from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
-from smolgp.kernels import StateSpaceModel, Sum, Product
+from smolgp.kernels import StateSpaceModel, Sum
 from smolgp.kernels.base import extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
@@ -54,11 +54,7 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
             k1 = _rename(k.kernel1)
             k2 = _rename(k.kernel2)
             return Sum(k1, k2)
-        if isinstance(k, Product):
-            k1 = _rename(k.kernel1)
-            k2 = _rename(k.kernel2)
-            return Product(k1, k2)
-        # Leaf
+        # Leaf (a Product is a single component, see extract_leaf_kernels)
         if counts[k.name] > 1:
             idx = used[k.name]
             used[k.name] += 1
diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index c2e6f14..7ff2ccf 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -345,10 +345,10 @@ class Product(StateSpaceModel):
     kernel1: StateSpaceModel
     kernel2: StateSpaceModel
 
-    def __init__(self, kernel1, kernel2):
+    def __init__(self, kernel1, kernel2, name: str | None = None):
         self.kernel1 = kernel1
         self.kernel2 = kernel2
-        self.name = f"Product({kernel1.name}, {kernel2.name})"
+        self.name = f"Product({kernel1.name}, {kernel2.name})" if name is None else name
 
     @property
     def dimension(self) -> int:
-- 
2.43.0


From 0e8b76f2a92e29e124d13e88bb27347377420d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 11/33] fix: renamed components do not collide with existing
 names

---
 src/smolgp/gp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 2eb6674..559167c 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -48,6 +48,7 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
         counts[k.name] = counts.get(k.name, 0) + 1
     # counter for how many times we've used each duplicated name
     used = {name: 1 for name, c in counts.items() if c > 1}
+    taken = set(names)
 
     def _rename(k: StateSpaceModel) -> StateSpaceModel:
         if isinstance(k, Sum):
@@ -56,9 +57,10 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
             return Sum(k1, k2)
         # Leaf (a Product is a single component, see extract_leaf_kernels)
         if counts[k.name] > 1:
-            idx = used[k.name]
-            used[k.name] += 1
-            newname = f"{k.name}_{idx}"
+            while f"{k.name}_{used[k.name]}" in taken:
+                used[k.name] += 1
+            newname = f"{k.name}_{used[k.name]}"
+            taken.add(newname)
             return dataclasses.replace(k, name=newname)
         else:
             # Single occurrence: leave unchanged
-- 
2.43.0


From 859b4d64bd052e4d3fd22d0f501f98ebc8f52c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 12/33] fix: scaled integrated kernels use the integrated
 solver

---
 src/smolgp/gp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 559167c..35cb8aa 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -17,7 +17,7 @@ from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
 from smolgp.kernels import StateSpaceModel, Sum
-from smolgp.kernels.base import extract_leaf_kernels
+from smolgp.kernels.base import Wrapper, extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
 from smolgp.solvers import StateSpaceSolver
@@ -69,6 +69,13 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     return _rename(kernel)
 
 
+def _is_integrated(kernel: StateSpaceModel) -> bool:
+    """Whether any component of a (possibly scaled) kernel is integrated"""
+    if isinstance(kernel, Wrapper):
+        return any(_is_integrated(k) for k in extract_leaf_kernels(kernel.kernel))
+    return isinstance(kernel, IntegratedStateSpaceModel)
+
+
 class ConditionedStates(eqx.Module):
     """
     An object to hold the conditioned means and variances
@@ -321,7 +328,7 @@ class GaussianProcess(eqx.Module):
 
         # Check if the kernel contains any integrated components
         kernels = extract_leaf_kernels(self.kernel)
-        is_integrated = any([isinstance(k, IntegratedStateSpaceModel) for k in kernels])
+        is_integrated = any([_is_integrated(k) for k in kernels])
         is_instantaneous = all([isinstance(k, StateSpaceModel) for k in kernels])
 
         # If using an integrated solver, ensure X has both coords and bin sizes
-- 
2.43.0


From f586406dcbc2c2dfb861f77614523bf70dd531f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 13/33] fix: parallel Kalman filter for one-dimensional states

---
 src/smolgp/solvers/parallel/kalman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 99c77c4..a33ccf1 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -65,11 +65,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (P @ H0.T).T).T
 
         A = jnp.zeros_like(Phi0)
-        b = jnp.squeeze(m + K @ (y0 - H0 @ m))
+        b = m + K @ (y0 - H0 @ m)
         C = P - K @ S @ K.T
 
         _M = Phi0.T @ H0.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y0)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y0))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
@@ -92,11 +92,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (Q_dt @ Hk.T).T).T
 
         A = (I - K @ Hk) @ Phi_dt
-        b = jnp.squeeze(K @ jnp.atleast_1d(y))  # remove atleast_1d?
+        b = K @ jnp.atleast_1d(y)  # remove atleast_1d?
         C = (I - K @ Hk) @ Q_dt
 
         _M = Phi_dt.T @ Hk.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
-- 
2.43.0


From 843bc3a3091f0882ffb364e2e9652b50b2d28c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 14/33] fix: integrated smoother when the last state is an
 exposure start

---
 src/smolgp/solvers/integrated/rts.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 2a98cc0..9d7c9ca 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -93,8 +93,12 @@ def integrated_rts_smoother(
 
         return (m_hat_k, P_hat_k), (m_hat_k, P_hat_k)
 
-    # Start smoothing from final filtered state
-    init_carry = (m_filtered[-1], P_filtered[-1])
+    # Start smoothing from final filtered state, or, if the final state is
+    # an exposure-start (of a zero-length exposure), from before its reset
+    last_is_start = stateid[-1] == 0
+    m_last = jnp.where(last_is_start, m_predicted[-1], m_filtered[-1])
+    P_last = jnp.where(last_is_start, P_predicted[-1], P_filtered[-1])
+    init_carry = (m_last, P_last)
 
     # Run backward from N-2 down to 0
     K = len(t_states)  # number of iterations
@@ -102,6 +106,6 @@ def integrated_rts_smoother(
     m_smooth_reversed, P_smooth_reversed = outputs
 
     # Reverse outputs (with final filtered=smoothed state) to match time order
-    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_filtered[-1][None, :]])
-    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_filtered[-1][None, :, :]])
+    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_last[None, :]])
+    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_last[None, :, :]])
     return m_smooth, P_smooth
-- 
2.43.0


From 04b950ffeea7698cd50703f56e99088d1114bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 15/33] fix: parallel integrated smoother when the last state
 is an exposure start

---
 src/smolgp/solvers/integrated/parallel/rts.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index ed66266..f2dc861 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -128,7 +128,13 @@ def make_associative_params(
         stateid[:-1],
     )
 
-    EN, gN, LN = make_last_params(m_filter[-1], P_filter[-1])
+    # Start from the final filtered state, or, if the final state is an
+    # exposure-start (of a zero-length exposure), from before its reset
+    last_is_start = stateid[-1] == 0
+    EN, gN, LN = make_last_params(
+        jnp.where(last_is_start, m_pred[-1], m_filter[-1]),
+        jnp.where(last_is_start, P_pred[-1], P_filter[-1]),
+    )
 
     E_all = jnp.concatenate([E, EN[jnp.newaxis, ...]], axis=0)
     g_all = jnp.concatenate([g, gN[jnp.newaxis, ...]], axis=0)
-- 
2.43.0


From c569695b80ecd8c8836c92e3e956e839dfbe4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 16/33] fix: parallel integrated filter when the first exposure
 has zero length

---
 .../solvers/integrated/parallel/kalman.py      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 2222c9b..ff3677b 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -175,11 +175,19 @@ def make_associative_params(
         J = _a @ _c
         return (A, b, C, eta, J)
 
-    A0, b0, C0, eta0, J0 = make_first_params(
-        Phi_aug,
-        m0,
-        P0,
-        RESET(instid[0]),
+    def make_first_end_params():
+        """If the first state is an exposure-end (of a zero-length exposure)"""
+        H0 = H_array[obsid[0]]
+        S0 = H0 @ P0 @ H0.T + R[obsid[0]]
+        K0 = jnp.linalg.solve(S0.T, (P0 @ H0.T).T).T
+        b = m0 + K0 @ (y[obsid[0]] - H0 @ m0)
+        C = P0 - K0 @ S0 @ K0.T
+        return (jnp.zeros_like(P0), b, C, jnp.zeros(state_dim), jnp.zeros_like(P0))
+
+    A0, b0, C0, eta0, J0 = jax.lax.cond(
+        stateid[0] == 0,
+        lambda: make_first_params(Phi_aug, m0, P0, RESET(instid[0])),
+        make_first_end_params,
     )
     t_delta = jnp.diff(t_states)
 
-- 
2.43.0


From 9ce8db93129740fda2d753c8fa13b9e56f27208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 17/33] fix: smoothing gain when integral states of the next
 state are known exactly

---
 src/smolgp/solvers/integrated/parallel/rts.py |  4 +++-
 src/smolgp/solvers/integrated/rts.py          | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index f2dc861..1791dbb 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.solvers.integrated.rts import smoothing_gain
+
 
 def ParallelIntegratedRTSSmoother(
     kernel,
@@ -104,7 +106,7 @@ def make_associative_params(
         A = Phik @ Pk @ Phik.T + Qk
         b = Pk @ Phik.T
 
-        E = jax.scipy.linalg.solve(A.T, b.T, assume_a="pos").T
+        E = smoothing_gain(A, b)
         g = mk - E @ (Phik @ mk)
         L = Pk - E @ Phik @ Pk
 
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 9d7c9ca..f97b6a1 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -4,6 +4,19 @@ import jax
 import jax.numpy as jnp
 
 
+def smoothing_gain(P_pred_next, PA):
+    """
+    The smoothing gain G = (P_k A_k^T) (P_{k+1}^-)^{-1}, where PA = P_k A_k^T
+
+    Components of the next state that are known exactly (e.g. the integral
+    state of another instrument whose exposure starts at the same time) have
+    zero rows and columns in both matrices. They carry no information, so they
+    are given a unit variance to keep the predicted covariance invertible.
+    """
+    known = (jnp.diagonal(P_pred_next) == 0).astype(P_pred_next.dtype)
+    return jnp.linalg.solve((P_pred_next + jnp.diag(known)).T, PA.T).T
+
+
 def IntegratedRTSSmoother(kernel, t_states, obsid, instid, stateid, kalman_results):
     """
     Wrapper for jitted integrated_rts_smoother function
@@ -72,14 +85,14 @@ def integrated_rts_smoother(
 
             Reset = RESET(instid[obsid[k]])
             AR = A_k @ Reset
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k_pre @ AR.T).T).T
+            G_k = smoothing_gain(P_pred_next, P_k_pre @ AR.T)
             m_hat_k = m_k_pre + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k_pre + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
 
         def smooth_end():
             """RTS smooth an exposure-end state"""
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k @ A_k.T).T).T
+            G_k = smoothing_gain(P_pred_next, P_k @ A_k.T)
             m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
-- 
2.43.0


From 8457cbd6da57cb4b557866feb36ba8f3ec596105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 18/33] fix: ExpSineSquared.error_bound was smaller than the
 actual error and ignored sigma

---
 src/smolgp/kernels/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 7ff2ccf..ade8602 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1184,12 +1184,15 @@ class ExpSineSquared(Wrapper):
     def error_bound(self):
         """
         An upper bound on the error in the covariance
-        from the Taylor series approximation.
+        from the truncated series approximation.
 
-        See Sec 3.4 of Solin & Särkkä (2014).
+        All coefficients of the series are non-negative, so the
+        error is largest at zero lag, where the exact covariance
+        is the variance (sigma squared).
         """
-        J = self.order
-        return jnp.exp(1 - self.scale) / jax.scipy.special.factorial(J + 1)
+        Pinf = self.stationary_covariance()
+        H = self.observation_model(0.0)
+        return jnp.square(self.sigma) - (H @ Pinf @ H.T).squeeze()
 
     def stationary_covariance(self) -> JAXArray:
         return jnp.square(self.sigma) * self.kernel.stationary_covariance()
-- 
2.43.0


From 0b1d77b7f8688b078c25fbcd22c95fc592ffab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 19/33] fix: parallel filter evaluated the observation model at
 time differences

---
 src/smolgp/solvers/parallel/kalman.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index a33ccf1..4391326 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -29,7 +29,7 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
     P0 = kernel.stationary_covariance()
     t = kernel.coord_to_sortable(X)
 
-    asso_params = make_associative_params(Phi, H, Q, R, t, y, m0, P0)
+    asso_params = make_associative_params(Phi, H, Q, R, X, t, y, m0, P0)
     A, b, C, eta, J = parallel_kalman_filter(asso_params)
     m_pred, P_pred, v, S = postprocess(Phi, H, Q, R, X, t, y, b, C, m0, P0)
     # return (A, b, C, eta, J), (m_pred, P_pred, v, S)
@@ -41,23 +41,25 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
 
 
 @jax.jit
-def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
+def make_associative_params(Phi, H, Q, R, X, t, y, m0, P0):
     """Generate the associative parameters needed for parallel Kalman
 
     See Eqns. 10, 11, 12 from Sarkka & Garcia-Fernandez (2020)
 
     """
 
+    # observation model at the data coordinates
+    H_all = jax.vmap(H)(X)
+
     def make_first_params(
         Phi,
-        H,
+        H0,
         m0,
         P0,
         y0,
         r0,
     ):
         Phi0 = Phi(0, 0)
-        H0 = H(0)  # this is sort of unnecessary but we'll keep it for now
 
         m = Phi0 @ m0
         P = Phi0 @ P0 @ Phi0.T  # Q(0,0) = 0
@@ -76,7 +78,7 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
     def make_generic_params(
         Phi,
-        H,
+        Hk,
         Q,
         t_delta,
         y,
@@ -85,7 +87,6 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         Phi_dt = Phi(0, t_delta)
         I = jnp.eye(Phi_dt.shape[-1])
 
-        Hk = H(t_delta)  # TODO: this is wrong, pass data coordinate here
         Q_dt = Q(0, t_delta)
 
         S = Hk @ Q_dt @ Hk.T + r
@@ -101,12 +102,12 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
         return (A, b, C, eta, J)
 
-    A0, b0, C0, eta0, J0 = make_first_params(Phi, H, m0, P0, y[0], R[0])
+    A0, b0, C0, eta0, J0 = make_first_params(Phi, H_all[0], m0, P0, y[0], R[0])
     t_delta = jnp.diff(t)
     A, b, C, eta, J = jax.vmap(
         make_generic_params,
-        in_axes=(None, None, None, 0, 0, 0),
-    )(Phi, H, Q, t_delta, y[1:], R[1:])
+        in_axes=(None, 0, None, 0, 0, 0),
+    )(Phi, H_all[1:], Q, t_delta, y[1:], R[1:])
 
     A_all = jnp.concatenate([A0[jnp.newaxis, ...], A], axis=0)
     b_all = jnp.concatenate([b0[jnp.newaxis, ...], b], axis=0)
-- 
2.43.0


From d3295c754092c83a8c1dbec2cac515bd663742a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 20/33] fix: observation models of structured coordinates (t,
 ...) in the instantaneous solvers

---
 src/smolgp/solvers/kalman.py          | 9 ++++-----
 src/smolgp/solvers/parallel/solver.py | 4 ++--
 src/smolgp/solvers/solver.py          | 4 +---
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index 8168e92..c719963 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -31,7 +31,7 @@ def KalmanFilter(kernel, X, y, noise, return_v_S=False):
         P0 = P0.to_dense()  # needed for carry in jax.lax.scan
 
     t = kernel.coord_to_sortable(X)
-    output = kalman_filter(A, Q, H, R, t, y, m0, P0)
+    output = kalman_filter(A, Q, H, R, X, t, y, m0, P0)
     if return_v_S:
         return output
     else:
@@ -40,7 +40,7 @@ def KalmanFilter(kernel, X, y, noise, return_v_S=False):
 
 
 @jax.jit
-def kalman_filter(A, Q, H, R, t, y, m0, P0):
+def kalman_filter(A, Q, H, R, X, t, y, m0, P0):
     """
     Jax implementation of the Kalman filter algorithm
 
@@ -54,6 +54,7 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
     of time steps and d is the dimension of the state vector.
     """
     N = len(t)  # number of data points
+    H_all = jax.vmap(H)(X)  # observation models at the data coordinates
 
     def step(carry, k):
         """
@@ -90,9 +91,7 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
         P_pred = A_prev @ P_prev @ A_prev.T + Q_prev
 
         # Update (Eq. 4.21)
-        ## TODO: let t be a tuple and use coord_to_sortable to get time axis out
-        ##       That way we can pass the full t into H and it can use e.g. instid etc.
-        H_k = H(t[k])  # observation model for this time step
+        H_k = H_all[k]  # observation model for this time step
         y_pred = H_k @ m_pred  # predicted observation
         v_k = y[k] - y_pred  # "innovation" or "surprise" term
         S_k = H_k @ P_pred @ H_k.T + R[k]  # uncertainy in predicted observation
diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 26e421d..0d7c81b 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -150,7 +150,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             Kalman prediction from most recent
             filtered (not smoothed) state
             """
-            dt = X_test[ktest] - self.X[k]
+            dt = t_test[ktest] - t_states[k]
             m_k = m_filtered[k]
             P_k = P_filtered[k]
             A_star = A(0, dt)  # transition matrix from t_k to t_star
@@ -180,7 +180,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             ]  # RTS smoothed covariance at next data point
 
             # Time-lag between states
-            dt = self.X[k_next] - X_test[ktest]
+            dt = t_states[k_next] - t_test[ktest]
 
             # Transition matrix for this step
             A_k = A(0, dt)
diff --git a/src/smolgp/solvers/solver.py b/src/smolgp/solvers/solver.py
index 2801eb7..1d1a3e5 100644
--- a/src/smolgp/solvers/solver.py
+++ b/src/smolgp/solvers/solver.py
@@ -47,9 +47,7 @@ class StateSpaceSolver(eqx.Module):
 
     def Kalman(self, y, return_v_S=False) -> Any:
         """Wrapper for Kalman filter used with this solver"""
-        return KalmanFilter(
-            self.kernel, self.t_states, y, self.noise, return_v_S=return_v_S
-        )
+        return KalmanFilter(self.kernel, self.X, y, self.noise, return_v_S=return_v_S)
 
     def RTS(self, kalman_results) -> Any:
         """Wrapper for RTS smoother used with this solver"""
-- 
2.43.0


From 10664696e89bdb5d41c2ccaa9a7b85927039cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 21/33] fix: derivatives of the SHO kernels at critical damping
 (NaN, or zero with respect to quality)

---
 src/smolgp/kernels/base.py       | 33 ++++++++++++++++++++++----------
 src/smolgp/kernels/integrated.py | 11 ++++++-----
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index ade8602..fcbbcdd 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -612,7 +612,11 @@ class SHO(StateSpaceModel):
         self.quality = quality
         self.sigma = sigma
         self.name = name
-        self.eta = jnp.sqrt(jnp.abs(1 - 1 / (4 * self.quality**2)))
+        eta2 = jnp.abs(1 - 1 / (4 * jnp.square(self.quality)))
+        # sqrt has an infinite derivative at critical damping (eta=0)
+        self.eta = jnp.where(
+            eta2 > 0, jnp.sqrt(jnp.where(eta2 > 0, eta2, jnp.ones_like(eta2))), 0.0
+        )
 
     def design_matrix(self) -> JAXArray:
         """The design (also called the feedback) matrix for the SHO process, F"""
@@ -638,6 +642,13 @@ class SHO(StateSpaceModel):
         """The noise effect matrix L for the SHO process"""
         return jnp.array([[0], [1]])
 
+    def _critical_cos_sin(self, dt: JAXArray) -> tuple[JAXArray, JAXArray]:
+        """cos(b dt) and sin(b dt)/b to first order in b^2 = w^2 (1 - 1/4Q^2),
+        so that derivatives with respect to Q are right at critical damping"""
+        b2 = jnp.square(self.omega) * (1 - 1 / (4 * jnp.square(self.quality)))
+        x2 = b2 * jnp.square(dt)
+        return 1 - x2 / 2, dt * (1 - x2 / 6)
+
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The transition matrix A_k for the SHO process"""
         t1 = self.coord_to_sortable(X1)
@@ -648,8 +659,10 @@ class SHO(StateSpaceModel):
         q = self.quality
 
         def critical(dt: JAXArray) -> JAXArray:
-            return jnp.exp(-w * dt) * jnp.array(
-                [[1 + w * dt, dt], [-jnp.square(w) * dt, 1 - w * dt]]
+            a = 0.5 * w / q
+            c, s = self._critical_cos_sin(dt)
+            return jnp.exp(-a * dt) * jnp.array(
+                [[c + a * s, s], [-jnp.square(w) * s, c - a * s]]
             )
 
         def underdamped(dt: JAXArray) -> JAXArray:
@@ -687,13 +700,13 @@ class SHO(StateSpaceModel):
         q = self.quality
 
         def critical(dt: JAXArray) -> JAXArray:
-            arg = 2 * w * dt
-            argexp = arg * jnp.exp(-arg)
-            expm1 = jnp.expm1(-arg)
-            wdt = w * dt
-            Q11 = -expm1 - argexp * (1 + wdt)
-            Q12 = Q21 = w * wdt * argexp
-            Q22 = jnp.square(w) * (-expm1 - argexp * (-1 + wdt))
+            a = 0.5 * w / q
+            c, s = self._critical_cos_sin(dt)
+            exp = jnp.exp(-2 * a * dt)
+            expm1 = jnp.expm1(-2 * a * dt)
+            Q11 = -expm1 - 2 * a * s * exp * (c + a * s)
+            Q12 = Q21 = 2 * a * jnp.square(w * s) * exp
+            Q22 = jnp.square(w) * (-expm1 - 2 * a * s * exp * (a * s - c))
             return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         def underdamped(dt: JAXArray) -> JAXArray:
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index d8eb4a4..ede666f 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -284,12 +284,12 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         self.omega = omega
         self.quality = quality
         self.sigma = sigma
-        self.eta = jnp.sqrt(jnp.abs(1 - 1 / (4 * self.quality**2)))
 
         # Base model
         self.base_model = smolgp.kernels.SHO(
             omega=self.omega, quality=self.quality, sigma=self.sigma
         )
+        self.eta = self.base_model.eta
 
     def integrated_transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The integrated transition matrix Phibar for the SHO process"""
@@ -301,9 +301,6 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         a = -0.5 * w / q
         b = n * w
         a2plusb2 = jnp.square(a) + jnp.square(b)
-        A = 1 / (2 * n * q)
-        B = 1 / (n * w)  # = 1/b
-        C = -w / n
 
         def critical(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
@@ -311,6 +308,10 @@ class IntegratedSHO(IntegratedStateSpaceModel):
             return Phibar_from_VanLoan(F, t2 - t1)
 
         def underdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
+            A = 1 / (2 * n * q)
+            B = 1 / (n * w)  # = 1/b
+            C = -w / n
+
             ## General integral from t1->t2:
             # def Int_ecos(t):
             #     return jnp.exp(a * t) * (a * jnp.cos(b * t) + b * jnp.sin(b * t))
@@ -369,13 +370,13 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         a = -0.5 * w / q
         b = n * w
         sigma2 = jnp.square(self.sigma)
-        A = 1 / (2 * n * q)
 
         def critical(dt: JAXArray) -> JAXArray:
             # TODO: returning numerical result until we do this integral by hand
             return super(type(self), self).integrated_process_noise(0, dt)
 
         def underdamped(dt: JAXArray) -> JAXArray:
+            A = 1 / (2 * n * q)
             x = a * dt
             arg = b * dt
             w2 = jnp.square(w)
-- 
2.43.0


From 3eb806aa4791513f5dd42efc4f8b65ccb51ddd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 22/33] fix: dense SHOKernel was only right for quality > 1/2

---
 src/smolgp/kernels/dense.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/dense.py b/src/smolgp/kernels/dense.py
index 0b1db42..0ead4d5 100644
--- a/src/smolgp/kernels/dense.py
+++ b/src/smolgp/kernels/dense.py
@@ -143,9 +143,14 @@ class SHOKernel(tinygp.kernels.Kernel):
 
         # Calculate the kernel
         eta = jnp.sqrt(jnp.abs(1 - 1 / (4 * self.Q**2)))  # damping factor
-        k = jnp.cos(eta * self.w * Delta) + 1 / (2 * eta * self.Q) * jnp.sin(
-            eta * self.w * Delta
+        x = eta * self.w * Delta
+        f = 2 * eta * self.Q
+        k = jnp.where(
+            self.Q > 0.5,
+            jnp.cos(x) + jnp.sin(x) / f,
+            jnp.cosh(x) + jnp.sinh(x) / f,
         )
+        k = jnp.where(jnp.allclose(self.Q, 0.5), 1 + self.w * Delta, k)
         return self.sig**2 * jnp.exp(-Delta / self.tau) * k
 
     def __repr__(self):
-- 
2.43.0


From 385a29d3388091844f95f290c734b05d46cba38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 23/33] fix: IntegratedSHOKernel ignored the exposure times of
 (t, texp) coordinates

---
 src/smolgp/kernels/dense.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smolgp/kernels/dense.py b/src/smolgp/kernels/dense.py
index 0ead4d5..490f591 100644
--- a/src/smolgp/kernels/dense.py
+++ b/src/smolgp/kernels/dense.py
@@ -431,6 +431,10 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         or
             (t1, texp1, instid1) and (t2, texp2, instid2) for multiple instruments
         """
+        if isinstance(X1, tuple) and len(X1) == 2:
+            # (t, texp): single instrument
+            X1 = (*X1, jnp.zeros_like(X1[0]))
+            X2 = (*X2, jnp.zeros_like(X2[0]))
         (t1, delta1, instid1), (t2, delta2, instid2) = unpack_coordinates(X1, X2)
 
         # Time difference and exposure times in units the kernel is defined in
-- 
2.43.0


From 8b9109dd9671289f1e458d669e7cc82e193d89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 24/33] fix: conditioning renamed components although
 use_unique_names=False

---
 src/smolgp/gp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 35cb8aa..84a4e02 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -574,6 +574,7 @@ class GaussianProcess(eqx.Module):
             mean_value=mu,
             variance_value=var,
             states=states,
+            use_unique_names=False,  # already done, if asked for
         )
 
         # Return the likelihood and conditioned GP
-- 
2.43.0


From 03a6c0a569e52c0419471f7edba823c428a846f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 25/33] fix: predict(kernel=index) raised

---
 src/smolgp/gp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 84a4e02..a280afd 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -586,7 +586,7 @@ class GaussianProcess(eqx.Module):
         y: JAXArray | None = None,
         *,
         return_full_state: bool = False,
-        kernel: int | None = None,
+        kernel: int | str | kernels.Kernel | None = None,
         # include_mean: bool = True,
         return_var: bool = False,
         # return_cov: bool = False,
@@ -617,8 +617,8 @@ class GaussianProcess(eqx.Module):
             return_full_state (bool, optional): If ``True``, return the full predicted state
                 mean and covariance, rather than projecting to observation space. Default is
                 ``False``, i.e. the result is projected through kernel.observation_model.
-            kernel (int, optional): If specified, the index of the kernel in a
-                multi-component model (for example, a sum or product of kernels)
+            kernel (int, str or Kernel, optional): If specified, the index (or name) of
+                the kernel in a multi-component model (for example, a sum of kernels)
                 to extract and project (if return_full_state is False) the prediction for.
 
         Returns:
@@ -630,6 +630,9 @@ class GaussianProcess(eqx.Module):
             respectively.
         """
 
+        if isinstance(kernel, int):
+            kernel = extract_leaf_kernels(self.kernel)[kernel]
+
         if self.states is None:
             # Need to condition the GP first
             assert y is not None, (
-- 
2.43.0


From 28f82696f3854b5c03e7e862f32383e274dc9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 26/33] fix: predict ignored observation_model at the data

---
 src/smolgp/gp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index a280afd..3b420f6 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -654,16 +654,18 @@ class GaussianProcess(eqx.Module):
                     mu = self.states.smoothed_mean
                     var = self.states.smoothed_cov
                 else:
-                    if kernel is None:
-                        # already computed here
-                        mu, var = self.loc, self.var
-                    else:
+                    if kernel is not None:
                         # extract component kernel & project
                         name = kernel if isinstance(kernel, str) else kernel.name
                         H_comp = lambda X: self.kernel.observation_model(
                             X, component=name
                         )
                         mu, var = self.states.project_at_data(H_comp)
+                    elif observation_model is not None:
+                        mu, var = self.states.project_at_data(observation_model)
+                    else:
+                        # already computed here
+                        mu, var = self.loc, self.var
             else:
                 # Predicting at new test points
                 H_test = (
-- 
2.43.0


From 6b1bfaadf42d5aa0ea339be20bf326e6d0f7c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:38 +0000
Subject: [PATCH 27/33] fix: components and re-conditioning of a GP conditioned
 at test points

---
 src/smolgp/gp.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 3b420f6..f762390 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -303,6 +303,7 @@ class GaussianProcess(eqx.Module):
     noise: Noise
     solver: StateSpaceSolver
     states: ConditionedStates
+    predicted: PredictedStates | None
 
     def __init__(
         self,
@@ -317,6 +318,7 @@ class GaussianProcess(eqx.Module):
         variance_value: JAXArray | None = None,
         covariance_value: Any | None = None,
         states: JAXArray | None = None,
+        predicted: PredictedStates | None = None,
         use_unique_names: bool = True,
         **solver_kwargs: Any,
     ):
@@ -357,6 +359,7 @@ class GaussianProcess(eqx.Module):
         self.mean = mean_value
         self.var = variance_value
         self.states = states
+        self.predicted = predicted
         if self.mean.ndim != 1:
             raise ValueError(
                 f"Invalid mean shape: expected ndim = 1, got ndim={self.mean.ndim}"
@@ -523,8 +526,9 @@ class GaussianProcess(eqx.Module):
         # Save the conditioned state values to a new GP object
         # so we can use them to make quick predictions at test
         # points with subsequent calls to self.predict
+        X_data = self.solver.X  # self.X are test points if conditioned at X_test
         states = ConditionedStates(
-            self.X,
+            X_data,
             t_states,
             instid,
             obsid,
@@ -555,13 +559,15 @@ class GaussianProcess(eqx.Module):
         if X_test is not None:
             # If X_test was given, also predit at those points
             mean, cov = self.solver.predict(X_test, states())
+            predicted = PredictedStates(X_test, mean, cov, self.kernel)
             H = jax.vmap(observation_model)(X_test)
             mu = jax.vmap(lambda H_i, m: (H_i @ m).squeeze())(H, mean)
             var = jax.vmap(lambda H_i, P: (H_i @ P @ H_i.T).squeeze())(H, cov)
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-            X_test = self.X
+            X_test = X_data
+            predicted = None
             mu, var = states.project_at_data(observation_model)
 
         ## Create the conditioned GP
@@ -574,6 +580,7 @@ class GaussianProcess(eqx.Module):
             mean_value=mu,
             variance_value=var,
             states=states,
+            predicted=predicted,
             use_unique_names=False,  # already done, if asked for
         )
 
@@ -660,9 +667,9 @@ class GaussianProcess(eqx.Module):
                         H_comp = lambda X: self.kernel.observation_model(
                             X, component=name
                         )
-                        mu, var = self.states.project_at_data(H_comp)
+                        mu, var = self._project(H_comp)
                     elif observation_model is not None:
-                        mu, var = self.states.project_at_data(observation_model)
+                        mu, var = self._project(observation_model)
                     else:
                         # already computed here
                         mu, var = self.loc, self.var
@@ -771,6 +778,18 @@ class GaussianProcess(eqx.Module):
 
         return jnp.where(jnp.isfinite(loglike), loglike, -jnp.inf)
 
+    def _project(self, observation_model) -> tuple[JAXArray, JAXArray]:
+        """
+        Project the conditioned states at self.X (the data points,
+        or X_test if conditioned with test points)
+        """
+        if self.predicted is None:
+            return self.states.project_at_data(observation_model)
+        return (
+            self.predicted.project_mean(observation_model),
+            self.predicted.project_variance(observation_model),
+        )
+
     def get_component_mean(
         self,
         component: list | str,
@@ -815,8 +834,8 @@ class GaussianProcess(eqx.Module):
                 H += self.kernel.observation_model(X, component=name)
             return H
 
-        ## Project at data
-        component_mean, component_var = self.states.project_at_data(H_comp)
+        ## Project at self.X
+        component_mean, component_var = self._project(H_comp)
 
         if return_var:
             return component_mean, component_var
-- 
2.43.0


From 7914bf4ad582f32926a152b982798d9c0cb01886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:36 +0000
Subject: [PATCH 28/33] fix: overdamped SHO kernels overflowed to NaN over long
 gaps

cosh and sinh overflow once omega * eta * dt exceeds 710 (and sinh(2x) or a
product with a decaying exponential sooner), although the transition matrix,
process noise and covariance all decay. Combine the exponentials first.
---
 src/smolgp/kernels/base.py  | 26 +++++++++++++++-----------
 src/smolgp/kernels/dense.py | 14 ++++++++++----
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index fcbbcdd..fdc6fbc 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -649,6 +649,13 @@ class SHO(StateSpaceModel):
         x2 = b2 * jnp.square(dt)
         return 1 - x2 / 2, dt * (1 - x2 / 6)
 
+    def _damped_cosh_sinh(self, dt: JAXArray) -> tuple[JAXArray, JAXArray]:
+        """exp(-a dt) cosh(b dt) and exp(-a dt) sinh(b dt), where a = w/2Q and
+        b = w eta < a, without the overflow of cosh and sinh at long steps"""
+        slow = jnp.exp(-(0.5 / self.quality - self.eta) * self.omega * dt)
+        expm1 = jnp.expm1(-2 * self.eta * self.omega * dt)
+        return slow * (1 + 0.5 * expm1), -0.5 * slow * expm1
+
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The transition matrix A_k for the SHO process"""
         t1 = self.coord_to_sortable(X1)
@@ -676,10 +683,8 @@ class SHO(StateSpaceModel):
 
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
-            x = n * w * dt
-            sinh = jnp.sinh(x)
-            cosh = jnp.cosh(x)
-            return jnp.exp(-0.5 * w * dt / q) * jnp.array(
+            cosh, sinh = self._damped_cosh_sinh(dt)
+            return jnp.array(
                 [[cosh + sinh / f, sinh / (w * n)], [-w * sinh / n, cosh - sinh / f]]
             )
 
@@ -736,15 +741,14 @@ class SHO(StateSpaceModel):
             n2 = jnp.square(n)
             w2 = jnp.square(w)
             a = w * dt / q  # argument in exponential
-            x = n * w * dt  # argument in sin/cos
-            sinh = jnp.sinh(x)
-            sinh2 = jnp.sinh(2 * x)
+            # times exp(-a/2), so that long steps do not overflow
+            cosh, sinh = self._damped_cosh_sinh(dt)
+            sinh2 = 2 * sinh * cosh
             sinhsq = jnp.square(sinh)
-            exp = jnp.exp(-a)
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
-            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2)) * exp
-            Q12 = Q21 = exp * (w * sinhsq / (n2 * q))
-            Q22 = w2 * (-expm1 + exp * (sinh2 / f - sinhsq / (2 * n2 * q2)))
+            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2))
+            Q12 = Q21 = w * sinhsq / (n2 * q)
+            Q22 = w2 * (-expm1 + (sinh2 / f - sinhsq / (2 * n2 * q2)))
             return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         return jax.lax.cond(
diff --git a/src/smolgp/kernels/dense.py b/src/smolgp/kernels/dense.py
index 490f591..42f0d70 100644
--- a/src/smolgp/kernels/dense.py
+++ b/src/smolgp/kernels/dense.py
@@ -145,13 +145,19 @@ class SHOKernel(tinygp.kernels.Kernel):
         eta = jnp.sqrt(jnp.abs(1 - 1 / (4 * self.Q**2)))  # damping factor
         x = eta * self.w * Delta
         f = 2 * eta * self.Q
+        decay = jnp.exp(-Delta / self.tau)
+        # decay * cosh(x) and decay * sinh(x), without overflow at long lags
+        b = jnp.where(self.Q > 0.5, 0.0, eta * self.w)
+        slow = jnp.exp(-(1 / self.tau - b) * Delta)
+        expm1 = jnp.expm1(-2 * b * Delta)
+        cosh, sinh = slow * (1 + 0.5 * expm1), -0.5 * slow * expm1
         k = jnp.where(
             self.Q > 0.5,
-            jnp.cos(x) + jnp.sin(x) / f,
-            jnp.cosh(x) + jnp.sinh(x) / f,
+            decay * (jnp.cos(x) + jnp.sin(x) / f),
+            cosh + sinh / f,
         )
-        k = jnp.where(jnp.allclose(self.Q, 0.5), 1 + self.w * Delta, k)
-        return self.sig**2 * jnp.exp(-Delta / self.tau) * k
+        k = jnp.where(jnp.allclose(self.Q, 0.5), decay * (1 + self.w * Delta), k)
+        return self.sig**2 * k
 
     def __repr__(self):
         s = f"{type(self)}(\n"
-- 
2.43.0


From 0220942932f9d06ae3e2dfcccbac9618edb0764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:36 +0000
Subject: [PATCH 29/33] fix: integrated kernels were wrong or NaN over long
 gaps or in other units

The Van Loan block matrices mix entries of very different scales and contain
exp(-F dt), which grows: expm returned NaN beyond a norm of 3.5e5 (reached by
sigma = 100 alone), and the products lost all precision after tens of decay
times (IntegratedSHO with Q < 1/2 returned finite garbage, 1e48 times too
large at omega dt = 30). Work in units of the stationary standard deviations
and of dt, and use the stationary covariances for long steps.
---
 src/smolgp/kernels/integrated.py | 61 ++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index ede666f..6efcefe 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -143,6 +143,29 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         L_aug = jnp.vstack([L] + [0.0] * self.num_insts)
         return L_aug
 
+    def _scaled_base(self) -> tuple[JAXArray, ...]:
+        """
+        The matrices F, L, Qc, and Pinf of the base model with each of its states
+        in units D of its stationary standard deviation; in other units the
+        matrices in the Van Loan method can be arbitrarily badly scaled
+        """
+        Pinf = self.base_model.stationary_covariance()
+        var = jnp.diag(Pinf)
+        D = jnp.sqrt(jnp.where(var > 0, var, 1.0))
+        F = self.base_model.design_matrix() * (D / D[:, None])
+        L = self.base_model.noise_effect_matrix() / D[:, None]
+        return D, F, L, self.base_model.noise(), Pinf / (D * D[:, None])
+
+    def _long_step(self, F: JAXArray, dt: JAXArray) -> tuple[JAXArray, ...]:
+        """
+        Whether dt spans so many decay times of the base model that the growing
+        exponentials in the Van Loan method would lose all precision, the F to use
+        if it does, and the dt to use if it does not
+        """
+        is_long = (jnp.sum(jnp.square(F * dt)) > 100) & (jnp.linalg.det(F) != 0)
+        F_long = jnp.where(is_long, F, jnp.eye(self.d))
+        return is_long, F_long, jnp.where(is_long, 0.0, dt)
+
     def integrated_transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
         The integrated transition matrix between two states at coordinates X1 and X2, $A_k$
@@ -151,11 +174,15 @@ class IntegratedStateSpaceModel(StateSpaceModel):
 
         Overload this method if you wish to define the integrated transition matrix analytically.
         """
-        F = self.base_model.design_matrix()
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return Phibar_from_VanLoan(F, dt)
+        D, F, _, _, _ = self._scaled_base()
+        is_long, F_long, dt_short = self._long_step(F, dt)
+        short = dt * Phibar_from_VanLoan(F * dt_short, 1.0)
+        Phi = self.base_model.transition_matrix(t1, t2) * (D / D[:, None])
+        long = jnp.linalg.solve(F_long, Phi - jnp.eye(self.d))
+        return jnp.where(is_long, long, short) * (D[:, None] / D)
 
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
@@ -183,22 +210,30 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        F = self.base_model.design_matrix()
-        L = self.base_model.noise_effect_matrix()
-        Qc = self.base_model.noise()
+        D, F, L, Qc, Pinf = self._scaled_base()
+        is_long, F_long, dt_short = self._long_step(F, dt)
 
-        vanloan = smolgp.helpers.VanLoan(F, L, Qc, dt)
+        vanloan = smolgp.helpers.VanLoan(F * dt_short, L, Qc * dt_short, 1.0)
         F3 = vanloan["F3"]
         H2 = vanloan["H2"]
         K1 = vanloan["K1"]
 
-        M = F3.T @ H2
-        F3TK1 = F3.T @ K1
+        M = F3.T @ H2 * dt
+        F3TK1 = F3.T @ K1 * jnp.square(dt)
         W = F3TK1 + F3TK1.T
 
-        Qaug12 = M[:, :1]
+        # Covariances of the stationary process, less what X1 predicts; without
+        # damping there is no noise, and the short step of zero is exact
+        is_long = is_long & (jnp.trace(F) < 0)
+        Phi = self.base_model.transition_matrix(t1, t2) * (D / D[:, None])
+        Phibar = jnp.linalg.solve(F_long, Phi - jnp.eye(self.d))
+        Phibb = jnp.linalg.solve(F_long, Phibar - dt * jnp.eye(self.d))
+        M_long = Phibar @ Pinf - Phi @ Pinf @ Phibar.T
+        W_long = 2 * Phibb @ Pinf - Phibar @ Pinf @ Phibar.T
+
+        Qaug12 = D[:, None] * jnp.where(is_long, M_long, M)[:, :1] * D[0]
         Qaug21 = Qaug12.T
-        Qaug22 = W[:1, :1]
+        Qaug22 = jnp.where(is_long, W_long, W)[:1, :1] * jnp.square(D[0])
         return Qaug12, Qaug21, Qaug22
 
     # @partial(
@@ -304,8 +339,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def critical(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return super(type(self), self).integrated_transition_matrix(t1, t2)
 
         def underdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             A = 1 / (2 * n * q)
@@ -344,8 +378,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def overdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return super(type(self), self).integrated_transition_matrix(t1, t2)
 
         # Return the appropriate form based on quality factor
         t1 = self.coord_to_sortable(X1)
-- 
2.43.0


From 6350360e8982c610eef019aaa67dad5e54473643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:36 +0000
Subject: [PATCH 30/33] fix: generic Matern stationary covariance failed under
 jit and for small scales

---
 src/smolgp/kernels/base.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index fdc6fbc..e5e70b1 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1385,19 +1385,16 @@ class Matern(StateSpaceModel):
         return jnp.array([[q]])
 
     def stationary_covariance(self) -> JAXArray:
-        """The stationary covariance of the Matern-5/2 process, Pinf"""
-        from scipy.linalg import solve_continuous_lyapunov
-
-        # TODO: find a JAX version of solve_continuous_lyapunov
-        # or figure out the general form for Pinf analytically
-        print(
-            "Warning: there does not seem to be a JAX implementation "
-            "of solve_continuous_lyapunov, so we use the scipy version here "
-            "for now. This means that this method will not be JIT-compilable."
-        )
-
-        F = self.design_matrix()
-        L = self.noise_effect_matrix()
-        Qc = self.noise()
-        LQL = L @ Qc @ L.T
-        return jnp.array(solve_continuous_lyapunov(F, -LQL))
+        """The stationary covariance of the Matern process, Pinf"""
+        # Moments of the spectral density: the process and its derivatives
+        # have Cov(f^(i), f^(j)) = (-1)^((i-j)/2) sigma^2 lambda^(i+j) c_(i+j)/2
+        # if i + j is even, and zero otherwise
+        d = self.dimension
+        Pinf = jnp.zeros((d, d))
+        for i in range(d):
+            for j in range(i % 2, d, 2):
+                c = (-1) ** ((i - j) // 2)
+                for k in range(1, (i + j) // 2 + 1):
+                    c *= (2 * k - 1) / (2 * d - 2 * k - 1)
+                Pinf = Pinf.at[i, j].set(c * jnp.power(self.lam, i + j))
+        return jnp.square(self.sigma) * Pinf
-- 
2.43.0


From 58e5c5c5230ef8f0c34f99522f1ae7de0a776976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:36 +0000
Subject: [PATCH 31/33] fix: generic Matern transition matrix was NaN for small
 scales or long gaps

---
 src/smolgp/kernels/base.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index e5e70b1..ccecd3e 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1360,6 +1360,23 @@ class Matern(StateSpaceModel):
             F = F.at[d - 1, i].set(-ai * jnp.power(self.lam, d - i))
         return F
 
+    def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        """The transition matrix A_k for the Matern process"""
+        t1 = self.coord_to_sortable(X1)
+        t2 = self.coord_to_sortable(X2)
+        x = self.lam * (t2 - t1)
+        # F + lambda is nilpotent, so the series of exp((F + lambda) dt) is finite
+        # (and with states in units of lambda^i, independent of the scale)
+        d = self.dimension
+        D = jnp.power(self.lam, jnp.arange(d))
+        I = jnp.eye(d)
+        N = self.design_matrix() * (D / D[:, None]) / self.lam + I
+        A = term = I
+        for k in range(1, d):
+            term = term @ N * (x / k)
+            A = A + term
+        return jnp.exp(-x) * A * (D[:, None] / D)
+
     def observation_matrix(self, X: JAXArray) -> JAXArray:
         """The observation model H for the Matern process"""
         del X
-- 
2.43.0


From dec19067dbda4f3fd4390f1a5eb207eb5f10b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:36 +0000
Subject: [PATCH 32/33] fix: generic Matern kernel could not be constructed
 under jit

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index ccecd3e..f6cb763 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1335,7 +1335,7 @@ class Matern(StateSpaceModel):
         name: str | None = None,
         **kwargs,
     ):
-        assert jnp.isclose(nu % 1, 0.5), (
+        assert abs(float(nu) % 1 - 0.5) < 1e-8, (
             "nu must be a half-integer (e.g., 1/2, 3/2, 5/2, etc.)"
         )
         self.nu = nu
-- 
2.43.0


From 4a3a85b3932700c423f2edb05fba86ec4c66233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:56 +0000
Subject: [PATCH 33/33] fix: gradient of covariances was NaN over long gaps

---
 src/smolgp/kernels/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index f6cb763..2be9707 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -217,10 +217,15 @@ class StateSpaceModel(Kernel):
         Pinf = self.stationary_covariance()
         h1 = self.observation_model(X1)
         h2 = self.observation_model(X2)
+        forward = self.coord_to_sortable(X1) < self.coord_to_sortable(X2)
+        # In the direction not taken, step over no time at all: the transition
+        # back in time can overflow, and then the gradient would be NaN
+        pick = lambda a, b: jnp.where(forward, a, b)  # noqa: E731
+        later = jax.tree_util.tree_map(pick, X2, X1)
         return jnp.where(
-            self.coord_to_sortable(X1) < self.coord_to_sortable(X2),
-            (h2 @ Pinf @ self.transition_matrix(X1, X2).T @ h1.T).squeeze(),
-            (h1 @ self.transition_matrix(X2, X1) @ Pinf @ h2.T).squeeze(),
+            forward,
+            (h2 @ Pinf @ self.transition_matrix(X1, later).T @ h1.T).squeeze(),
+            (h1 @ self.transition_matrix(X2, later) @ Pinf @ h2.T).squeeze(),
         )
 
     def evaluate_diag(self, X: JAXArray) -> JAXArray:
-- 
2.43.0

