From 1b772e7a050dd8707404aacc5045785708fd738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:54 +0000
Subject: [PATCH 01/27] fix: ekf0 and ekf1 crashed with their default
 prior=None

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 5 +++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 17b3f43..b386d16 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -11,8 +11,9 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     Wrapper for EKF0 with new prior at each step.
     Algorithm 2.
     """
-    n_states = int(prior[2].shape[0] / init.shape[
-        0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
+    # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
+    # The default prior (IBM, q = 1) has two states.
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
     # the first two cases are exact initialization
     if n_states == 2:
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 20a4f5a..de5b166 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -10,7 +10,8 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     """
     Wrapper for EKF1 with new prior at each step.
     """
-    n_states = int(prior[2].shape[0] / init.shape[0])
+    # The default prior (IBM, q = 1) has two states.
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
     if n_states == 2:
         # Zero initial variance
-- 
2.43.0


From 5fcbb93117ab89ebb2afb8d6c808381c88b6c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:54 +0000
Subject: [PATCH 02/27] fix: ekf0 crashed for priors with more than three
 states

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index b386d16..1f0ddc2 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -32,9 +32,9 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field, argnums=(0,))(init, 0.0) @ vector_field(init, 0.0),
+                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3]).set(0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
-- 
2.43.0


From 7b5e64641ba063d04cb6ec8379925c964bff2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:54 +0000
Subject: [PATCH 03/27] fix: ekf1 zeroed the wrong initial variances when dim >
 1 and n_states > 3

---
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index de5b166..256b777 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -30,7 +30,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
         init = (
             interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.eye(n_states * dim).at[:3 * dim, :3 * dim].set(0.0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
-- 
2.43.0


From 2e7c6a6c7990d5a4d3becaa50bafcf66e8e4ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 04/27] fix: ekf0 and ekf1 initialised the second derivative
 without the time derivative of the vector field

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 10 +++++++---
 bayesian_sde_solver/ode_solvers/ekf1.py |  9 +++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 1f0ddc2..bcf9556 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -15,6 +15,11 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     # The default prior (IBM, q = 1) has two states.
     n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
+
+    def second_derivative(x):
+        # x'' = f_x(x, t) f(x, t) + f_t(x, t) along a solution of x' = f(x, t).
+        return jax.jacfwd(vector_field)(x, 0.0) @ vector_field(x, 0.0) + jax.jacfwd(vector_field, 1)(x, 0.0)
+
     # the first two cases are exact initialization
     if n_states == 2:
         # Zero initial variance
@@ -25,14 +30,13 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), second_derivative(init))),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
-            interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+            interlace((init, vector_field(init, 0.0), second_derivative(init),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 256b777..acbd202 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -13,6 +13,11 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     # The default prior (IBM, q = 1) has two states.
     n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
+
+    def second_derivative(x):
+        # x'' = f_x(x, t) f(x, t) + f_t(x, t) along a solution of x' = f(x, t).
+        return jax.jacfwd(vector_field)(x, 0.0) @ vector_field(x, 0.0) + jax.jacfwd(vector_field, 1)(x, 0.0)
+
     if n_states == 2:
         # Zero initial variance
         init = (
@@ -22,13 +27,13 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), second_derivative(init))),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+            interlace((init, vector_field(init, 0.0), second_derivative(init),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
-- 
2.43.0


From ea3eb1435468c765d9afe48e4815360850531b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 05/27] fix: transition_function crashed, jnp.trapezoid does
 not exist in the supported jax versions

---
 .../ode_solvers/probnum/transition_function.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
index 60b0c10..ea1366b 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import jax
 import jax.numpy as jnp
 import jax.scipy.linalg as linalg
+from jax.scipy.integrate import trapezoid
 from numpy.typing import ArrayLike
 
 
@@ -27,7 +28,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return linalg.expm(F * s) @ u
 
     integrand_xi_values = integrand_xi(linspace)
-    xi = jnp.trapezoid(integrand_xi_values, linspace, axis=0)
+    xi = trapezoid(integrand_xi_values, linspace, axis=0)
 
     @jax.vmap
     def integrand_Q(s):
@@ -35,7 +36,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return B @ B.T
 
     integrand_Q_values = integrand_Q(linspace)
-    Q = jnp.trapezoid(integrand_Q_values, linspace, axis=0)
+    Q = trapezoid(integrand_Q_values, linspace, axis=0)
 
     return xi, Q, A
 
-- 
2.43.0


From e8e9da38b3bf75b5679ff141846d3faa3580ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 06/27] fix: wrong sign of the exponents in the companion
 matrix of the Matern prior

---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index e2675e4..d3b99a6 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -62,7 +62,7 @@ ArrayLike]:
     else:
         F = jnp.block(
             [[jnp.zeros(k).reshape((k, 1)), jnp.diag(jnp.ones(k))],
-             [jnp.array([-comb(k + 1, i) * lambda_param ** (i - (k + 1)) for i in range(k + 1)]).reshape((1, k + 1))]]
+             [jnp.array([-comb(k + 1, i) * lambda_param ** (k + 1 - i) for i in range(k + 1)]).reshape((1, k + 1))]]
         )
         L = jnp.append(jnp.array([0. for _ in range(k)]), jnp.array([magnitude])).reshape(k + 1, 1)
         m, Q, A = compute_transition_function(F, jnp.zeros(k + 1), L, dt)
-- 
2.43.0


From e58796099bd0ea962b62516b7ab3d5ae230a6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 07/27] fix: the marginal parabola filter crashed, ekf() was
 called without the transition increment

---
 bayesian_sde_solver/ssm_parabola/ekf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 49f5e6a..c513000 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -64,13 +64,13 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
             return x[1::4] - extended_vector_field(x, t)
     if prior is None:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = IOUP_transition_function(theta=0.0, sigma=1.0, q=1, dt=h, dim=1)
     else:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = prior
@@ -80,6 +80,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
         var = jnp.real(linalg.sqrtm(var))  # should be LDL.T, Cholesky
     init = (mean, var)
 
+    one_block_transition_incr = jnp.concatenate([one_block_transition_incr, jnp.zeros(2)])
     one_block_transition_matrix = jnp.block(
         [[one_block_transition_matrix, jnp.zeros((2, 2))],
          [jnp.zeros((2, 2)), jnp.eye(2)]]
@@ -89,10 +90,11 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
          [jnp.zeros((2, 2)), jnp.zeros((2, 2))]]
     )
 
+    transition_incr = jnp.kron(jnp.ones(dim), one_block_transition_incr)
     transition_matrix = jnp.kron(jnp.eye(dim), one_block_transition_matrix)
     transition_covariance = jnp.kron(jnp.eye(dim), one_block_transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
-                   Q_or_cholQ=transition_covariance, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
+                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
 
     return filtered
-- 
2.43.0


From 4d953c80c910aa1aae5c7e9ac5ae67ce4fd08a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:17 +0000
Subject: [PATCH 08/27] fix: ekf1_2 with sqrt=True took the matrix square root
 of a singular covariance (NaN)

---
 bayesian_sde_solver/ode_solvers/ekf1_2.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf1_2.py b/bayesian_sde_solver/ode_solvers/ekf1_2.py
index f366836..fb6216d 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1_2.py
@@ -21,12 +21,16 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     _, m_0, P_00 = init
     dim = m_0.shape[0]
     H = jax.jacfwd(vector_field, 0)(m_0, 0.0)
-    P_10 = H @ P_00
-    P_11 = P_10 @ H.T
-    P_01 = P_00 @ H.T
-    var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        # The joint covariance has rank dim at most, hence its matrix square root cannot be computed reliably:
+        # (I, H) @ L_00 is a square root as soon as L_00 is a square root of P_00.
+        L_00 = jnp.real(linalg.sqrtm(P_00))
+        var = interlace_matrix(L_00, jnp.zeros_like(P_00), H @ L_00, jnp.zeros_like(P_00))
+    else:
+        P_10 = H @ P_00
+        P_11 = P_10 @ H.T
+        P_01 = P_00 @ H.T
+        var = interlace_matrix(P_00, P_01, P_10, P_11)
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
-- 
2.43.0


From ce6dc8efa185dde132d6b977a8ac9cd977928b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:17 +0000
Subject: [PATCH 09/27] fix: ekf0_2 with sqrt=True took the matrix square root
 of a singular covariance

---
 bayesian_sde_solver/ode_solvers/ekf0_2.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0_2.py b/bayesian_sde_solver/ode_solvers/ekf0_2.py
index 6485a59..c07039b 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0_2.py
@@ -16,12 +16,16 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     _, m_0, P_00 = init
     dim = m_0.shape[0]
     H = jnp.zeros((dim, dim))
-    P_11 = H @ P_00 @ H.T
-    P_01 = P_00 @ H.T
-    P_10 = H @ P_00
-    var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        # The joint covariance has rank dim at most, hence its matrix square root cannot be computed reliably:
+        # (I, H) @ L_00 is a square root as soon as L_00 is a square root of P_00.
+        L_00 = jnp.real(linalg.sqrtm(P_00))
+        var = interlace_matrix(L_00, jnp.zeros_like(P_00), H @ L_00, jnp.zeros_like(P_00))
+    else:
+        P_11 = H @ P_00 @ H.T
+        P_01 = P_00 @ H.T
+        P_10 = H @ P_00
+        var = interlace_matrix(P_00, P_01, P_10, P_11)
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
-- 
2.43.0


From 842d41a93f6d4b2fddae1635bfdecaf46a3860d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:39 +0000
Subject: [PATCH 10/27] fix: the marginal parabola filter with sqrt=True took
 the matrix square root of a singular covariance

---
 bayesian_sde_solver/ssm_parabola/ekf.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index c513000..4e63991 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -1,6 +1,5 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
@@ -38,7 +37,17 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
                           [0, Evfw[j, i], delta if i == j else 0, 0],
                           [0, Evfi[j, i], 0, delta / 2 if i == j else 0]])
 
-    var = jnp.block([[block(i, j) for j in range(dim)] for i in range(dim)])
+    def sqrt_block(i, j):
+        # The joint covariance has rank 2 * dim only, hence its square root is given explicitly:
+        # f = sigma @ (w + sqrt(6) * i) / delta, w = sqrt(delta) * z_1 and i = sqrt(delta / 2) * z_2.
+        sigma_ij = diffusion(init, 0.0)[i, j]
+        return jnp.array([[0, 0, 0, 0],
+                          [0, 0, sigma_ij / jnp.sqrt(delta), sigma_ij * jnp.sqrt(3 / delta)],
+                          [0, 0, jnp.sqrt(delta) if i == j else 0, 0],
+                          [0, 0, 0, jnp.sqrt(delta / 2) if i == j else 0]])
+
+    initial_block = sqrt_block if sqrt else block
+    var = jnp.block([[initial_block(i, j) for j in range(dim)] for i in range(dim)])
 
     def pol(t):
         H = jnp.array([[1, 0, 0, 0],
@@ -77,7 +86,6 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
 
     if sqrt:
         one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
-        var = jnp.real(linalg.sqrtm(var))  # should be LDL.T, Cholesky
     init = (mean, var)
 
     one_block_transition_incr = jnp.concatenate([one_block_transition_incr, jnp.zeros(2)])
-- 
2.43.0


From 8f1c8b592c397ba397675ba5ee4d0e482745155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 11/27] fix: get_approx_and_brownian read the fine Brownian
 path off by one and out of bounds

---
 bayesian_sde_solver/foster_polynomial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/foster_polynomial.py b/bayesian_sde_solver/foster_polynomial.py
index ef58d22..a7478df 100644
--- a/bayesian_sde_solver/foster_polynomial.py
+++ b/bayesian_sde_solver/foster_polynomial.py
@@ -38,10 +38,12 @@ def get_approx_and_brownian(dim=1, N=1000):
         bm = jnp.cumsum(incs, axis=0)
         bm *= jnp.sqrt(dt / N)
 
-        _is = jnp.arange(1, N + 1)
-
         eps_0 = bm.at[-1].get()
 
+        # The path starts from 0.
+        bm = jnp.insert(bm, 0, 0.0, axis=0)
+        _is = jnp.arange(N + 1)
+
         @jax.vmap
         def integrand(i):
             return (bm.at[i].get()) * jnp.sqrt(6)
-- 
2.43.0


From 8300bf260f8f09a854bf2f337b27557b63924adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 12/27] fix: random_linear_sde used the same key for the drift
 and the diffusion matrices

---
 bayesian_sde_solver/utils/ivp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index fedc79d..45cb572 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -131,9 +131,11 @@ def random_linear_sde(key=jax.random.PRNGKey(1337), dim=1, std1=None, std2=None)
 
     x0 = jnp.ones((dim,))
 
-    drift_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_key, sigma_key = jax.random.split(key)
 
-    sigma_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_matrix = jax.random.normal(drift_key, shape=(dim, dim))
+
+    sigma_matrix = jax.random.normal(sigma_key, shape=(dim, dim))
 
     def drift(x, t):
         return std1 @ drift_matrix @ x
-- 
2.43.0


From 74113febbb475979bfedfe9b266250ae9b019095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 13/27] fix: wrong terms of the second order derivatives of the
 diffusion in the 1.5 scheme

---
 bayesian_sde_solver/sde_solvers/diag_15_scheme.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
index fdb0a0c..6984918 100644
--- a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
+++ b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
@@ -60,10 +60,10 @@ def solver(key, init, drift, sigma, h, N):
                 @ sigma(x)
                 @ (jnp.square(eta_k) - h * jnp.ones(dim))
                 + partialxsigma(x) @ drift(x) @ (h * eta_k - zeta_k)
-                + 0.5 * laplacesigma(x) @ (h * eta_k - zeta_k)
+                + 0.5 * laplacesigma(x) * (h * eta_k - zeta_k)
                 + 0.5
-                * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + laplacesigma(x))
-                @ (1 / 3 * eta_k @ eta_k.T - h * jnp.ones(dim))
+                * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + jnp.diag(laplacesigma(x)))
+                @ ((1 / 3 * jnp.square(eta_k) - h * jnp.ones(dim)) * eta_k)
         )
         return out, out
 
-- 
2.43.0


From 77f94b4c21e253046cc892618c306512e3295333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 14/27] fix: synaptic_conductance_reduced indexed its two
 dimensional state out of bounds

---
 bayesian_sde_solver/utils/ivp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 45cb572..c1d9dd8 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -165,16 +165,16 @@ def synaptic_conductance_reduced():
 
     def drift(x):
         return jnp.array(
-            [-1.0 / tau_E * (x[1] - gbar_E), -1.0 / tau_I * (x[2] - gbar_I)]
+            [-1.0 / tau_E * (x[0] - gbar_E), -1.0 / tau_I * (x[1] - gbar_I)]
         )
 
     def sigma(x):
         return jnp.array(
-            [[sig_E * x[1] ** 0.5, 0.0], [0.0, sig_I * x[2] ** 0.5]]
+            [[sig_E * x[0] ** 0.5, 0.0], [0.0, sig_I * x[1] ** 0.5]]
         )
 
     def theoretical_mean_up_to_order_2(t):
-        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[1], -1.0 / tau_I * drift(x0)[2]])
+        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[0], -1.0 / tau_I * drift(x0)[1]])
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2
 
-- 
2.43.0


From 1b74f399218afc7ca1cc19628f1a98d4dc68cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 15/27] fix: wrong coordinates in the theoretical moments of
 synaptic_conductance

---
 bayesian_sde_solver/utils/ivp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index c1d9dd8..69bfb4d 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -331,7 +331,7 @@ def synaptic_conductance():
 
     def theoretical_mean_up_to_order_2(t):
         return (x0 + t * drift(x0) + t ** 2 / 2 * jnp.array(
-            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[1] - V_E) + drift(x0)[2] * (
+            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[0] - V_E) + drift(x0)[2] * (
                     x0[0] - V_I)),
              -1.0 / tau_E * drift(x0)[1],
              -1.0 / tau_I * drift(x0)[2]])
@@ -339,7 +339,7 @@ def synaptic_conductance():
 
     def theoretical_variance_up_to_order_3_first_coordinate(t):
         return (t ** 3 / (3 * C ** 2) * (
-                (x0[0] - V_E) ** 2 * sig_E ** 2 * x0[2]
+                (x0[0] - V_E) ** 2 * sig_E ** 2 * x0[1]
                 + (x0[0] - V_I) ** 2 * sig_I ** 2 * x0[2]))
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2, theoretical_variance_up_to_order_3_first_coordinate
-- 
2.43.0


From 5214b1d8521460fcf99bf776287363f7bc822c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 16/27] fix: wrong sign of alpha in the theoretical mean of fhn

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 69bfb4d..e39453b 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -40,7 +40,7 @@ def fhn():
         return x0 + t * jnp.array(
             [1 / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) + t / 2 * 1 / eps * (
                     1 / eps * (1 - 3 * x0[0] ** 2) * (x0[0] - x0[0] ** 3 - x0[1] + s)
-                    - (gamma * x0[0] - x0[1] - alpha)),
+                    - (gamma * x0[0] - x0[1] + alpha)),
              gamma * x0[0] - x0[1] + alpha + t / 2 * (
                      gamma / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) - (gamma * x0[0] - x0[1] + alpha))])
 
-- 
2.43.0


From 6a12addeda4068aa53a39f62d690c5f8a0667b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 17/27] fix: the square root filters used the noise covariance
 as if it were its square root

---
 bayesian_sde_solver/ode_solvers/ekf.py  | 3 +++
 bayesian_sde_solver/ssm_parabola/ekf.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 490af4e..09d55db 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -1,5 +1,6 @@
 import jax
 import jax.numpy as jnp
+import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
@@ -22,6 +23,8 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
         noise = jnp.zeros((dim, dim))
     else:
         assert noise.shape == (dim, dim)
+        if sqrt:
+            noise = jnp.real(linalg.sqrtm(noise))
 
     if EKF0:
         def observation_function(x, t):
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 4e63991..31d752f 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -1,5 +1,6 @@
 import jax
 import jax.numpy as jnp
+import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
@@ -24,6 +25,8 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
         noise = jnp.zeros((dim, dim))
     else:
         assert noise.shape == (dim, dim)
+        if sqrt:
+            noise = jnp.real(linalg.sqrtm(noise))
 
     mean = interlace((init, drift(init, 0.0), jnp.zeros((dim,)), jnp.zeros((dim,))))
 
-- 
2.43.0


From 5d52a10e43f9d9b235b475c3d94bd78a6300cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 18/27] fix: euler_maruyama_pathwise scaled the caller's numpy
 increments in place

---
 bayesian_sde_solver/sde_solvers/euler_maruyama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/sde_solvers/euler_maruyama.py b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
index 567826b..6985203 100644
--- a/bayesian_sde_solver/sde_solvers/euler_maruyama.py
+++ b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
@@ -39,7 +39,7 @@ def solver_pathwise(incs, init, drift, sigma, h, N, standard=False):
 
     ts = jnp.linspace(0, N * h, N + 1)
     if standard:
-        incs *= h ** 0.5
+        incs = incs * h ** 0.5
     inps = incs, ts[:-1]
     _, samples = jax.lax.scan(body, init, inps)
     samples = jnp.insert(samples, 0, init, axis=0)
-- 
2.43.0


From 663dcf1f6f5702655450c89c2e62125951bacf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:32 +0000
Subject: [PATCH 19/27] fix: strong_convergence_parabola_ode.py imported a name
 that does not exist

---
 scripts/strong_convergence_parabola_ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/strong_convergence_parabola_ode.py b/scripts/strong_convergence_parabola_ode.py
index edbac5d..27ab15e 100644
--- a/scripts/strong_convergence_parabola_ode.py
+++ b/scripts/strong_convergence_parabola_ode.py
@@ -1,5 +1,5 @@
 from functools import partial
-from bayesian_sde_solver.utils.progress_bar import progress_bar_scan
+from bayesian_sde_solver.utils.progress_bar import progress_bar
 
 import jax
 import jax.numpy as jnp
@@ -44,7 +44,7 @@ def experiment(delta, N, M, fine):
         init = x0
         get_coeffs, eval_fn = bm()
 
-        @progress_bar_scan(num_samples=N, message=f"N={N}")
+        @progress_bar(num_samples=N, message=f"N={N}")
         def body(x, inp):
             x1, x2 = x
             _, key_k, t_k = inp
-- 
2.43.0


From ec4e02d2bf0dcf95ff9a9fd0c427c050e98aec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:32 +0000
Subject: [PATCH 20/27] fix: pathwise_convergence_experiment_2.py passed a 1x1
 noise covariance for a two dimensional problem

---
 scripts/pathwise_convergence_experiment_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pathwise_convergence_experiment_2.py b/scripts/pathwise_convergence_experiment_2.py
index d01054c..4593fae 100644
--- a/scripts/pathwise_convergence_experiment_2.py
+++ b/scripts/pathwise_convergence_experiment_2.py
@@ -36,7 +36,7 @@ def experiment(delta, N, M, fine):
     keys = jax.random.split(JAX_KEY, 1_0000)
 
     prior = IOUP_transition_function(theta=0.0, sigma=1.0, dt=delta / M, q=1, dim=x0.shape[0])
-    solver = partial(_solver, prior=prior, noise=jnp.array([[0.0]]))
+    solver = partial(_solver, prior=prior, noise=None)
 
     def wrapped(_key, init, vector_field, T):
         return solver(_key, init=init, vector_field=vector_field, h=T / M, N=M)
-- 
2.43.0


From 976b871ff938a896b57d5a2925d8be52c942e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 21/27] fix: 1.5 scheme coupled the coordinates through a
 scalar product in the drift-diffusion term

---
 bayesian_sde_solver/sde_solvers/diag_15_scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
index 6984918..6a63d59 100644
--- a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
+++ b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
@@ -59,7 +59,7 @@ def solver(key, init, drift, sigma, h, N):
                 * partialxsigma(x)
                 @ sigma(x)
                 @ (jnp.square(eta_k) - h * jnp.ones(dim))
-                + partialxsigma(x) @ drift(x) @ (h * eta_k - zeta_k)
+                + partialxsigma(x) @ drift(x) * (h * eta_k - zeta_k)
                 + 0.5 * laplacesigma(x) * (h * eta_k - zeta_k)
                 + 0.5
                 * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + jnp.diag(laplacesigma(x)))
-- 
2.43.0


From dd99c96c30c97f570b8c7345fde866bfd76fd36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 22/27] fix: square-root form with deterministic prior states
 (padded priors)

---
 bayesian_sde_solver/ode_solvers/ekf.py              | 4 ++--
 bayesian_sde_solver/ode_solvers/probnum/__init__.py | 2 +-
 bayesian_sde_solver/ode_solvers/probnum/_utils.py   | 9 +++++++++
 bayesian_sde_solver/ssm_parabola/ekf.py             | 4 ++--
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 09d55db..d2b5a35 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -3,7 +3,7 @@ import jax.numpy as jnp
 import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
-from bayesian_sde_solver.ode_solvers.probnum import ekf
+from bayesian_sde_solver.ode_solvers.probnum import ekf, lower_sqrt
 
 
 def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=None, return_all=False, n_states=2):
@@ -47,7 +47,7 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
             transition_matrix
         ) = prior
     if sqrt:
-        transition_covariance = jnp.linalg.cholesky(transition_covariance)
+        transition_covariance = lower_sqrt(transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
                    Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all)
diff --git a/bayesian_sde_solver/ode_solvers/probnum/__init__.py b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
index 49556ad..21b9a5c 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/__init__.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
@@ -1,5 +1,5 @@
 from .IOUP import transition_function as IOUP_transition_function
 from .matern import transition_function as matern_transition_function
-from ._utils import interlace, interlace_matrix
+from ._utils import interlace, interlace_matrix, lower_sqrt
 from .ekf import ekf
 from .transition_function import transition_function as transition_function, get_independently_factorized_prior, pad_prior
diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index 43cd8f6..226ed6c 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -27,3 +27,12 @@ def interlace_matrix(v: ArrayLike, w: ArrayLike, x: ArrayLike, y: ArrayLike) ->
     _var = _var.at[1::2, ::2].set(var.at[dim:, :dim].get())
     _var = _var.at[::2, 1::2].set(var.at[:dim, dim:].get())
     return _var
+
+
+def lower_sqrt(Q: ArrayLike) -> ArrayLike:
+    """
+    Lower square root of a transition covariance, whose deterministic states (zero rows, e.g., of a padded prior) stay zero.
+    """
+    null = jnp.diag(Q) == 0.0
+    L = jnp.linalg.cholesky(Q + jnp.diag(jnp.where(null, 1.0, 0.0)))
+    return jnp.where(null[:, None], 0.0, L)
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 31d752f..55ed56e 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -4,7 +4,7 @@ import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, lower_sqrt
 
 
 def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=None, noise=None):
@@ -88,7 +88,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
         ) = prior
 
     if sqrt:
-        one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
+        one_block_transition_covariance = lower_sqrt(one_block_transition_covariance)
     init = (mean, var)
 
     one_block_transition_incr = jnp.concatenate([one_block_transition_incr, jnp.zeros(2)])
-- 
2.43.0


From cbf726ea3707778e08891de6c6d518aa1ecf5b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:08 +0000
Subject: [PATCH 23/27] fix: *_RAM_2 experiments kept the reference of the
 first sample only

---
 scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py | 1 -
 scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py | 1 -
 scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py | 1 -
 scripts/pathwise_convergence_experiment_2_RAM_2.py          | 1 -
 4 files changed, 4 deletions(-)

diff --git a/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py b/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py
index de0eeb1..b5be4c3 100644
--- a/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/EKF0_FHN/pathwise_convergence_experiment_2_RAM_2.py
@@ -115,7 +115,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
diff --git a/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py b/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py
index b23762b..7e6a723 100644
--- a/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/EKF0_IBM/pathwise_convergence_experiment_2_RAM_2.py
@@ -117,7 +117,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
diff --git a/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py b/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py
index e46bf60..3054129 100644
--- a/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/EKF1_IBM/pathwise_convergence_experiment_2_RAM_2.py
@@ -118,7 +118,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
diff --git a/scripts/pathwise_convergence_experiment_2_RAM_2.py b/scripts/pathwise_convergence_experiment_2_RAM_2.py
index 83f5ad2..d9ce46d 100644
--- a/scripts/pathwise_convergence_experiment_2_RAM_2.py
+++ b/scripts/pathwise_convergence_experiment_2_RAM_2.py
@@ -121,7 +121,6 @@ def experiment(delta, N, M, fine):
     linspaces, sols, sol2 = wrapped_filter_parabola(keys)
     if _solver in [ekf0_2, ekf1_2]:
         sols = sols[0]
-        sol2 = sol2[0]
 
     return sols, sol2
 
-- 
2.43.0


From fbbc89fd976b54cb0eea5eb6f14887946cad9ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:08 +0000
Subject: [PATCH 24/27] fix: breaking_multidimensionnal.py evaluated the
 stochastic integral at a single time

---
 scripts/breaking_multidimensionnal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/breaking_multidimensionnal.py b/scripts/breaking_multidimensionnal.py
index 2512dce..0e63213 100644
--- a/scripts/breaking_multidimensionnal.py
+++ b/scripts/breaking_multidimensionnal.py
@@ -36,7 +36,7 @@ def experiment(delta, N, M, fine, dim):
     sigma_matrix = sigma(jnp.identity(n=dim), 0.0)
     transition_matrix = jlinalg.expm(drift_matrix * delta)
     init = x0
-    fine_ts = jnp.arange(0, delta, M)
+    fine_ts = jnp.linspace(0, delta, fine + 1)[:-1]
     def sde_solver(
             key,
             drift: Callable,
-- 
2.43.0


From 36fe0ecff4ec734da1cb24559fa951cbd9d64af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:08 +0000
Subject: [PATCH 25/27] fix: posterior samples multiplied by the upper Cholesky
 factor had the wrong covariance

---
 .../pathwise_sampling_from_posterior.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py b/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py
index 0d234a8..98d57c5 100644
--- a/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py
+++ b/scripts/sampling_from_posterior_alg3/pathwise_sampling_from_posterior.py
@@ -108,7 +108,7 @@ def experiment(delta, N, M, fine, no_samples):
 
     @partial(jnp.vectorize, signature='(n)->(m)')
     def sample(key_sample):
-        return mean + jlinalg.cholesky(var) @ jax.random.normal(key_sample, shape=mean.shape)
+        return mean + jlinalg.cholesky(var, lower=True) @ jax.random.normal(key_sample, shape=mean.shape)
 
     KEY_SAMPLES = jax.random.split(JAX_KEY, no_samples)
     sampled_sols = sample(KEY_SAMPLES) # samples from PN posteriors
-- 
2.43.0


From bf0573fa7125615cbf250cad1ce7b5e7955acd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:08 +0000
Subject: [PATCH 26/27] fix: local_order_experiment_from_scratch.py integrated
 unit variance increments as if unnormalised

---
 scripts/local_order_experiment_from_scratch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/local_order_experiment_from_scratch.py b/scripts/local_order_experiment_from_scratch.py
index 11bc76f..25ab816 100644
--- a/scripts/local_order_experiment_from_scratch.py
+++ b/scripts/local_order_experiment_from_scratch.py
@@ -77,7 +77,7 @@ def experiment(delta, N):
 
         fine_incs *= jnp.sqrt(1 / fine_delta)  # normalizing them to var. 1, needed for euler_maruyama_pathwise
         _, X_DELTA_EULER = euler_maruyama_pathwise(fine_incs, init=init_x0, drift=drift, sigma=sigma, h=fine_delta,
-                                                   N=fine_N)  # solving using EM scheme this path
+                                                   N=fine_N, standard=True)  # solving using EM scheme this path
         X_DELTA_EULER = X_DELTA_EULER[-1]  # taking last value, corresponding to X^{eu}_{delta} with h = fine_delta
 
         # in case we know the closed formula:
-- 
2.43.0


From 37ecb69808da0248122270d8da2483b9a9c5e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:16 +0000
Subject: [PATCH 27/27] fix: the calibrated run ignored the prior scale its
 diffusion estimate refers to

---
 scripts/sampling_from_posterior_alg3/uncertainty_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py b/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py
index 0468d61..157ae78 100644
--- a/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py
+++ b/scripts/sampling_from_posterior_alg3/uncertainty_calibration.py
@@ -182,7 +182,7 @@ for n in range(len(Ndeltas)):
     problem_name = "FHN_calibrated"
     prefix = f"{solver_name}_{problem_name}"
     mean, var, s_fine, s_em, s_parabola_ode, fine_incs, \
-        incs, parabola_coeffs, mle_diffusion_coeff = experiment(delta, N, M, fine, sigma_prior=mle_diffusion_coeff**0.5)
+        incs, parabola_coeffs, mle_diffusion_coeff = experiment(delta, N, M, fine, sigma_prior=(10 * mle_diffusion_coeff)**0.5)
     # jnp.save(f'{folder}/{prefix}_sampled_sols_{N}_{M}', sampled_sols)
     jnp.save(f'{folder}/{prefix}_mean_pn_{N}_{M}', mean)
     jnp.save(f'{folder}/{prefix}_var_pn_{N}_{M}', var)
-- 
2.43.0

