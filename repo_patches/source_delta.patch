From 927de0b9cd1a76a60e65ca07b9ff9f11eea4fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:31 +0000
Subject: [PATCH 01/17] fix: J2 acceleration no longer vanishes in float32
 beyond 5e7 length units

r**5 overflowed to inf in single precision, so j2_acc silently returned zero
for positions given in metres above about 50000 km.
---
 src/astrodynx/gravity/_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/gravity/_general.py b/src/astrodynx/gravity/_general.py
index edb44d7..133bd1a 100644
--- a/src/astrodynx/gravity/_general.py
+++ b/src/astrodynx/gravity/_general.py
@@ -85,7 +85,7 @@ def j2_acc(
     R_eq = args["R_eq"]
     r = jnp.linalg.vector_norm(x[:3])
     zsq_over_rsq = (x[2] / r) ** 2
-    factor = -1.5 * mu * J2 * R_eq**2 / r**5
+    factor = -1.5 * J2 * (R_eq / r) ** 2 * (mu / r**3)
     ax = factor * x[0] * (1 - 5 * zsq_over_rsq)
     ay = factor * x[1] * (1 - 5 * zsq_over_rsq)
     az = factor * x[2] * (3 - 5 * zsq_over_rsq)
-- 
2.43.0


From e6e4a261efff126d669fee24bc69b58b84974548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:38 +0000
Subject: [PATCH 02/17] fix: universal functions keep their accuracy and
 derivatives for near-parabolic orbits

---
 src/astrodynx/twobody/_uniformulas.py | 35 ++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 5cc3c85..73e3e32 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -1,3 +1,4 @@
+import math
 import jax.numpy as jnp
 import jax
 from jax.typing import ArrayLike, DTypeLike
@@ -6,6 +7,22 @@ from jax import Array
 """Universal functions for two-body orbital mechanics."""
 
 
+def _near_parabolic(
+    n: int, chi: ArrayLike, alpha: DTypeLike, closed_form: Array
+) -> Array:
+    r"""Returns U_n, replacing its closed form by the power series for small $\alpha \chi^2$.
+
+    The closed forms divide differences of nearly equal numbers by powers of $\alpha$, so they lose all their digits when $\alpha \chi^2$ is small.
+    """
+    psi = alpha * chi**2
+    is_small = jnp.abs(psi) < 1
+    psi = jnp.where(is_small, psi, 0)
+    series = jnp.ones_like(psi)
+    for k in range(18 + n, n, -2):
+        series = 1 - psi * series / (k * (k - 1))
+    return jnp.where(is_small, chi**n / math.factorial(n) * series, closed_form)
+
+
 def sigma_fn(pos_vec: ArrayLike, vel_vec: ArrayLike, mu: ArrayLike = 1) -> Array:
     r"""The sigma function
 
@@ -91,7 +108,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc0(chi, alpha)
         Array([ 0.5403..., -0.4161...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: jnp.cos(jnp.sqrt(alpha) * chi),
         lambda: jax.lax.cond(
@@ -100,6 +117,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: jnp.ones_like(chi),
         ),
     )
+    return _near_parabolic(0, chi, alpha, closed_form)
 
 
 def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -143,7 +161,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc1(chi, alpha)
         Array([0.8414..., 0.9092...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: jnp.sin(jnp.sqrt(alpha) * chi) / jnp.sqrt(alpha),
         lambda: jax.lax.cond(
@@ -152,6 +170,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi,
         ),
     )
+    return _near_parabolic(1, chi, alpha, closed_form)
 
 
 def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -195,7 +214,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc2(chi, alpha)
         Array([0.4596..., 1.4161...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (1 - jnp.cos(jnp.sqrt(alpha) * chi)) / alpha,
         lambda: jax.lax.cond(
@@ -204,6 +223,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**2 / 2,
         ),
     )
+    return _near_parabolic(2, chi, alpha, closed_form)
 
 
 def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -247,7 +267,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc3(chi, alpha)
         Array([0.1585..., 1.0907...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (jnp.sqrt(alpha) * chi - jnp.sin(jnp.sqrt(alpha) * chi))
         / alpha
@@ -260,6 +280,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**3 / 6,
         ),
     )
+    return _near_parabolic(3, chi, alpha, closed_form)
 
 
 def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -303,7 +324,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc4(chi, alpha)
         Array([0.0403..., 0.5838...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (alpha * chi**2 - 2 + 2 * jnp.cos(jnp.sqrt(alpha) * chi))
         / (2 * alpha**2),
@@ -314,6 +335,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**4 / 24,
         ),
     )
+    return _near_parabolic(4, chi, alpha, closed_form)
 
 
 def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
@@ -357,7 +379,7 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc5(chi, alpha)
         Array([0.2426..., 1.6411...], dtype=float32)
     """
-    return jax.lax.cond(
+    closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (
             alpha**2 * chi**3
@@ -376,3 +398,4 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: chi**5 / 120,
         ),
     )
+    return _near_parabolic(5, chi, alpha, closed_form)
-- 
2.43.0


From 427a3658f3439c36cc76d2437714b0d48a854a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:28 +0000
Subject: [PATCH 03/17] fix: elliptic Kepler solver converges for near-unit
 eccentricity and for float32 mean anomalies of many revolutions

---
 src/astrodynx/twobody/_kep_equ.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index a91572c..23979e0 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -379,7 +379,9 @@ def solve_kepler_elps(
         >>> adx.solve_kepler_elps(M,e)
         Array(3.479..., dtype=float32, weak_type=True)
     """
-    E0 = M + e * jnp.sin(M) + e**2 * jnp.sin(2 * M) / 2
+    # Newton's method converges from any upper bound of |E - M| of the right sign.
+    sin_M = jnp.sin(M)
+    E0 = M + jnp.sign(sin_M) * jnp.minimum(e, jnp.cbrt(6 * jnp.abs(sin_M)))
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, E, E_prev = val
@@ -393,7 +395,7 @@ def solve_kepler_elps(
         E_new = E - f / dE(E, e)
         return (iter_count + 1, E_new, E)
 
-    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + 2 * tol))
+    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + jnp.inf))
     return E
 
 
-- 
2.43.0


From 20d1b684df20c3e26be6d975304e15eb437c9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:22 +0000
Subject: [PATCH 04/17] fix: hyperbolic Kepler solver converges for every mean
 anomaly and eccentricity above one

---
 src/astrodynx/twobody/_kep_equ.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 23979e0..4b70645 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -433,20 +433,25 @@ def solve_kepler_hypb(
         >>> adx.solve_kepler_hypb(N,e)
         Array(3.463..., dtype=float32, weak_type=True)
     """
-    H0 = jnp.log(2 * N / e + jnp.sqrt((2 * N / e) ** 2 + 1))
+    # Newton's method converges monotonically from any upper bound of |H|.
+    H0 = jnp.sign(N) * jnp.minimum(
+        jnp.cbrt(6 * jnp.abs(N)), jnp.arcsinh(jnp.abs(N) / (e - 1))
+    )
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, H, _ = val
-        not_converged = jnp.abs(kepler_equ_hypb(H, e, N)) > tol
+        iter_count, _, f = val
+        not_converged = jnp.abs(f) > tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, H, _ = val
-        H_new = H - kepler_equ_hypb(H, e, N) / dH(H, e)
-        return (iter_count + 1, H_new, H)
+        iter_count, H, f = val
+        H_new = H - f / dH(H, e)
+        return (iter_count + 1, H_new, kepler_equ_hypb(H_new, e, N))
 
-    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, H0 + 2 * tol))
+    _, H, _ = jax.lax.while_loop(
+        cond_fn, body_fn, (0, H0, kepler_equ_hypb(H0, e, N))
+    )
     return H
 
 
-- 
2.43.0


From d3ef784b746a9f8b66207a92e1b2bad79ff25ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:43 +0000
Subject: [PATCH 05/17] fix: universal Kepler solver always terminates under
 vmap and converges for every conic

The loop condition re-evaluated the residual, which XLA may round differently
from the body, so a batched solve could spin forever; and Newton's method from
the elliptic guess diverged for fast hyperbolic and high-eccentricity orbits.
---
 src/astrodynx/twobody/_kep_equ.py | 34 ++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 4b70645..ec41d6d 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -505,22 +505,36 @@ def solve_kepler_uni(
         >>> assert adx.kepler_equ_uni(chi,alpha,r0, sigma0, deltat, mu) < 1e-6
     """
 
-    chi0 = jnp.sqrt(mu) * jnp.abs(alpha) * deltat
+    abs_alpha = jnp.abs(alpha)
+    sqrt_abs_alpha = jnp.sqrt(jnp.where(abs_alpha > 0, abs_alpha, 1))
+    chi0 = jnp.where(
+        alpha < 0,
+        jnp.arcsinh(jnp.sqrt(mu) * abs_alpha * deltat * sqrt_abs_alpha)
+        / sqrt_abs_alpha,
+        jnp.sqrt(mu) * abs_alpha * deltat,
+    )
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        not_converged = (
-            jnp.abs(kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)) > tol
-        )
+        iter_count, _, f = val
+        not_converged = jnp.abs(f) > tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        chi_new = chi - kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu) / dchi(
-            chi, alpha, r0, sigma0
+        # Laguerre-Conway iteration (Der, 1997), which converges from any guess.
+        iter_count, chi, f = val
+        df = dchi(chi, alpha, r0, sigma0)
+        ddf = sigma0 * ufunc0(chi, alpha) + (1 - alpha * r0) * ufunc1(chi, alpha)
+        chi_new = chi - 5 * f / (df + jnp.sqrt(jnp.abs(16 * df**2 - 20 * f * ddf)))
+        return (
+            iter_count + 1,
+            chi_new,
+            kepler_equ_uni(chi_new, alpha, r0, sigma0, deltat, mu),
         )
-        return (iter_count + 1, chi_new, chi)
 
-    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, chi0 + 2 * tol))
+    _, chi, _ = jax.lax.while_loop(
+        cond_fn,
+        body_fn,
+        (0, chi0, kepler_equ_uni(chi0, alpha, r0, sigma0, deltat, mu)),
+    )
     return chi
-- 
2.43.0


From 39a67266ce840a3300724bf64c16b69682ec8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:59 +0000
Subject: [PATCH 06/17] fix: derivatives of the Kepler solvers are those of the
 root, in forward and reverse mode

Differentiating the iterations gave the derivative of the initial guess
whenever it was accepted early (e.g. circular orbits), and reverse mode failed.
---
 src/astrodynx/twobody/_kep_equ.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index ec41d6d..7338317 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -1,3 +1,4 @@
+from collections.abc import Callable
 import jax.numpy as jnp
 from jax.typing import ArrayLike, DTypeLike
 from jax import Array
@@ -345,6 +346,20 @@ def generalized_anomaly(
     return alpha * jnp.sqrt(mu) * deltat + sigma - sigma0
 
 
+def _refine_root(
+    f: Callable[[Array], Array], df: Callable[[Array], Array], x: Array
+) -> Array:
+    r"""Returns the root x of f refined by two Newton steps.
+
+    The iterations that led to x depend on the parameters of f only through the stopping rule, so differentiating them does not give the derivatives of the root. The Newton steps do, up to the third order.
+    """
+    x = jax.lax.stop_gradient(x)
+    for _ in range(2):
+        x = x - f(x) / df(x)
+    return x
+
+
+@jax.jit
 def solve_kepler_elps(
     M: DTypeLike, e: DTypeLike, tol: DTypeLike = 1e-6, max_iter: int = 20
 ) -> Array:
@@ -396,9 +411,10 @@ def solve_kepler_elps(
         return (iter_count + 1, E_new, E)
 
     _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + jnp.inf))
-    return E
+    return _refine_root(lambda E: kepler_equ_elps(E, e, M), lambda E: dE(E, e), E)
 
 
+@jax.jit
 def solve_kepler_hypb(
     N: DTypeLike, e: DTypeLike, tol: DTypeLike = 1e-6, max_iter: int = 50
 ) -> Array:
@@ -449,12 +465,11 @@ def solve_kepler_hypb(
         H_new = H - f / dH(H, e)
         return (iter_count + 1, H_new, kepler_equ_hypb(H_new, e, N))
 
-    _, H, _ = jax.lax.while_loop(
-        cond_fn, body_fn, (0, H0, kepler_equ_hypb(H0, e, N))
-    )
-    return H
+    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, kepler_equ_hypb(H0, e, N)))
+    return _refine_root(lambda H: kepler_equ_hypb(H, e, N), lambda H: dH(H, e), H)
 
 
+@jax.jit
 def solve_kepler_uni(
     deltat: DTypeLike,
     alpha: DTypeLike,
@@ -537,4 +552,8 @@ def solve_kepler_uni(
         body_fn,
         (0, chi0, kepler_equ_uni(chi0, alpha, r0, sigma0, deltat, mu)),
     )
-    return chi
+    return _refine_root(
+        lambda chi: kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu),
+        lambda chi: dchi(chi, alpha, r0, sigma0),
+        chi,
+    )
-- 
2.43.0


From 0a6a3b005f32c07828a4b6d7aa460c96701e56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:18 +0000
Subject: [PATCH 07/17] fix: Kepler propagator works under jit and vmap and has
 correct derivatives

.item() made the generalized anomaly a constant under jacfwd and failed under
jit/vmap, the uses shown in docs/basics.rst.
---
 src/astrodynx/prop/_kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index e29e81b..fd3bb4a 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -97,7 +97,7 @@ def kepler(
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
-        jnp.atleast_1d(ts), alpha.item(), r0.item(), sigma0.item(), mu
+        jnp.atleast_1d(ts), alpha, r0, jnp.squeeze(sigma0), mu
     )
     F = lagrange_F(ufunc2(chi, alpha), r0)
     G = lagrange_G(
-- 
2.43.0


From 3b647e2b2dc982b1ba458f21fe0bab4fb6f49017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:18 +0000
Subject: [PATCH 08/17] fix: Kepler propagator is accurate for orbits much
 smaller than the length unit

---
 src/astrodynx/prop/_kepler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index fd3bb4a..98d565e 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -96,8 +96,10 @@ def kepler(
     alpha = 1.0 / semimajor_axis(r0, v0, mu)
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
-    chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
-        jnp.atleast_1d(ts), alpha, r0, jnp.squeeze(sigma0), mu
+    # The residual has the dimension of length**1.5, so small lengths need a smaller tolerance.
+    tol = 1e-6 * jnp.minimum(1.0, r0 * jnp.sqrt(r0))
+    chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None, None))(
+        jnp.atleast_1d(ts), alpha, r0, jnp.squeeze(sigma0), mu, tol
     )
     F = lagrange_F(ufunc2(chi, alpha), r0)
     G = lagrange_G(
-- 
2.43.0


From ba62579b411d51f07d2489efcbaf6469f2caaf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:37 +0000
Subject: [PATCH 09/17] fix: rv2coe resolves the quadrants of the argument of
 periapsis and true anomaly

Both were always in [0, pi], so half of all states did not come back from
coe2rv, and circular or equatorial orbits lost their position altogether.
---
 src/astrodynx/twobody/_orb_elements.py | 53 ++++++++++++++++++--------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index bbe096e..39015c9 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -29,12 +29,24 @@ def inclination(h_vec: ArrayLike) -> Array:
     return jnp.arccos(h_vec[..., 2:3] / vector_norm(h_vec, axis=-1, keepdims=True))
 
 
-def true_anomaly(pos_vec: ArrayLike, e_vec: ArrayLike) -> Array:
+def _angle_about(from_vec: ArrayLike, to_vec: ArrayLike, axis_vec: ArrayLike) -> Array:
+    r"""Returns the angle from one vector to another, positive about the given axis, in (-pi, pi]."""
+    axis = axis_vec / vector_norm(axis_vec, axis=-1, keepdims=True)
+    return jnp.arctan2(
+        jnp.sum(jnp.cross(from_vec, to_vec) * axis, axis=-1, keepdims=True),
+        jnp.sum(from_vec * to_vec, axis=-1, keepdims=True),
+    )
+
+
+def true_anomaly(
+    pos_vec: ArrayLike, e_vec: ArrayLike, h_vec: ArrayLike | None = None
+) -> Array:
     r"""Returns the true anomaly of a two-body orbit.
 
     Args:
         pos_vec: (..., 3) position vector of the object in the two-body system.
         e_vec: (..., 3) eccentricity vector of the object in the two-body system, which shape broadcast-compatible with `pos_vec`.
+        h_vec: (optional) (..., 3) specific angular momentum vector, which gives the direction of motion. Without it, the true anomaly is taken in [0, pi].
 
     Returns:
         The true anomaly of the orbit.
@@ -49,10 +61,13 @@ def true_anomaly(pos_vec: ArrayLike, e_vec: ArrayLike) -> Array:
     References
         Vallado, 2013, pp.118.
     """
-    true_anom = jnp.arctan2(
-        vector_norm(jnp.cross(e_vec, pos_vec), axis=-1, keepdims=True),
-        jnp.sum(e_vec * pos_vec, axis=-1, keepdims=True),
-    )
+    if h_vec is None:
+        true_anom = jnp.arctan2(
+            vector_norm(jnp.cross(e_vec, pos_vec), axis=-1, keepdims=True),
+            jnp.sum(e_vec * pos_vec, axis=-1, keepdims=True),
+        )
+    else:
+        true_anom = _angle_about(e_vec, pos_vec, h_vec)
     return jnp.where(true_anom < 0, 2 * jnp.pi + true_anom, true_anom)
 
 
@@ -80,12 +95,15 @@ def right_ascension(node_vec: ArrayLike) -> Array:
     return jnp.where(raan < 0, 2 * jnp.pi + raan, raan)
 
 
-def argument_of_periapsis(node_vec: ArrayLike, e_vec: ArrayLike) -> Array:
+def argument_of_periapsis(
+    node_vec: ArrayLike, e_vec: ArrayLike, h_vec: ArrayLike | None = None
+) -> Array:
     r"""Returns the argument of periapsis of a two-body orbit.
 
     Args:
         node_vec: (..., 3) node vector of the object in the two-body system.
         e_vec: (..., 3) eccentricity vector of the object in the two-body system, which shape broadcast-compatible with `node_vec`.
+        h_vec: (optional) (..., 3) specific angular momentum vector, which gives the direction of motion. Without it, the argument of periapsis is taken in [0, pi].
 
     Returns:
         The argument of periapsis of the orbit.
@@ -97,10 +115,13 @@ def argument_of_periapsis(node_vec: ArrayLike, e_vec: ArrayLike) -> Array:
         $$
         where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector.
     """
-    argp = jnp.arctan2(
-        vector_norm(jnp.cross(node_vec, e_vec), axis=-1, keepdims=True),
-        jnp.sum(node_vec * e_vec, axis=-1, keepdims=True),
-    )
+    if h_vec is None:
+        argp = jnp.arctan2(
+            vector_norm(jnp.cross(node_vec, e_vec), axis=-1, keepdims=True),
+            jnp.sum(node_vec * e_vec, axis=-1, keepdims=True),
+        )
+    else:
+        argp = _angle_about(node_vec, e_vec, h_vec)
     return jnp.where(argp < 0, 2 * jnp.pi + argp, argp)
 
 
@@ -127,11 +148,11 @@ def rv2coe(
         i &= \arccos(h_z / h) \\
         \boldsymbol{N} &= \boldsymbol{k} \times \boldsymbol{h} \\
         \Omega &= \arctan2(N_y, N_x) \\
-        \omega &= \arctan2(\|\boldsymbol{N}\times \boldsymbol{e}\|, \boldsymbol{N} \cdot \boldsymbol{e}) \\
-        f &= \arctan2(\|\boldsymbol{e}\times \boldsymbol{r}\|, \boldsymbol{e} \cdot \boldsymbol{r})
+        \omega &= \arctan2(\frac{\boldsymbol{h}}{h} \cdot (\boldsymbol{N}\times \boldsymbol{e}), \boldsymbol{N} \cdot \boldsymbol{e}) \\
+        f &= \arctan2(\frac{\boldsymbol{h}}{h} \cdot (\boldsymbol{e}\times \boldsymbol{r}), \boldsymbol{e} \cdot \boldsymbol{r})
         \end{aligned}
         $$
-        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly.
+        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly. The x-axis stands in for the undefined node of an equatorial orbit, and the node for the undefined periapsis of a circular orbit.
 
     References
         Vallado, 2013, pp.114.
@@ -168,9 +189,11 @@ def rv2coe(
     p = semiparameter(h_mag, mu)
     incl = inclination(h_vec)
     N = node_vec(h_vec)
+    N = jnp.where(jnp.all(N == 0, axis=-1, keepdims=True), jnp.array([1, 0, 0]), N)
+    e_vec = jnp.where(e_mag > jnp.finfo(e_mag.dtype).eps, e_vec, N)
     raan = right_ascension(N)
-    argp = argument_of_periapsis(N, e_vec)
-    true_anom = true_anomaly(pos_vec, e_vec)
+    argp = argument_of_periapsis(N, e_vec, h_vec)
+    true_anom = true_anomaly(pos_vec, e_vec, h_vec)
     return (
         jnp.squeeze(p, axis=-1),
         jnp.squeeze(e_mag, axis=-1),
-- 
2.43.0


From 9ece1dbf8d5ad0a4e71ebd386aba231e0236fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:45 +0000
Subject: [PATCH 10/17] fix: coe2rv accepts any broadcast-compatible
 eccentricity and true anomaly

---
 src/astrodynx/twobody/_orb_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index 39015c9..552cb16 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -278,6 +278,7 @@ def coe2rv(
         >>> assert jnp.allclose(pos_vec[1], jnp.array([6525.3677, 6861.5317, 6449.117]))
         >>> assert jnp.allclose(vel_vec[1], jnp.array([4.902279, 5.5331397, -1.9757109]))
     """
+    e, true_anom = jnp.broadcast_arrays(e, true_anom)
     r_pf = jnp.expand_dims(p / (1 + e * jnp.cos(true_anom)), axis=-1) * jnp.stack(
         [jnp.cos(true_anom), jnp.sin(true_anom), jnp.zeros_like(true_anom)], axis=-1
     )
-- 
2.43.0


From a2fac7cf9afc40a0642b23d301848c398a11c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:53 +0000
Subject: [PATCH 11/17] fix: universal Kepler solver converges for incoming,
 nearly radial hyperbolas

---
 src/astrodynx/twobody/_kep_equ.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 7338317..659158d 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -522,10 +522,22 @@ def solve_kepler_uni(
 
     abs_alpha = jnp.abs(alpha)
     sqrt_abs_alpha = jnp.sqrt(jnp.where(abs_alpha > 0, abs_alpha, 1))
+    # A hyperbola starts from the same bound on the anomaly as solve_kepler_hypb,
+    # measured from the periapsis.
+    e_sinh_H0 = sigma0 * sqrt_abs_alpha
+    e_cosh_H0 = 1 + r0 * abs_alpha
+    e = jnp.sqrt(
+        jnp.maximum((e_cosh_H0 - e_sinh_H0) * (e_cosh_H0 + e_sinh_H0), 1),
+    )
+    H0 = jnp.arcsinh(e_sinh_H0 / e)
+    N = e_sinh_H0 - H0 + jnp.sqrt(mu) * abs_alpha * deltat * sqrt_abs_alpha
+    H = jnp.sign(N) * jnp.minimum(
+        jnp.cbrt(6 * jnp.abs(N)),
+        jnp.arcsinh(jnp.abs(N) / jnp.where(e > 1, e - 1, jnp.finfo(e.dtype).tiny)),
+    )
     chi0 = jnp.where(
         alpha < 0,
-        jnp.arcsinh(jnp.sqrt(mu) * abs_alpha * deltat * sqrt_abs_alpha)
-        / sqrt_abs_alpha,
+        (H - H0) / sqrt_abs_alpha,
         jnp.sqrt(mu) * abs_alpha * deltat,
     )
 
-- 
2.43.0


From 86f2b49a347ace76457d238b6fce5251a7e0bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:47 +0000
Subject: [PATCH 12/17] fix: refining a Kepler root never increases its
 residual

---
 src/astrodynx/twobody/_kep_equ.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index 659158d..f4e4263 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -355,7 +355,14 @@ def _refine_root(
     """
     x = jax.lax.stop_gradient(x)
     for _ in range(2):
-        x = x - f(x) / df(x)
+        fx, dfx = f(x), df(x)
+        x_new = x - fx / dfx
+        # A step that would increase the residual is not taken, only differentiated.
+        x = jnp.where(
+            jnp.abs(f(x_new)) > jnp.abs(fx),
+            x - (fx - jax.lax.stop_gradient(fx)) / dfx,
+            x_new,
+        )
     return x
 
 
-- 
2.43.0


From a4178441108fefaec5a176d935b3b430b56635c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:53 +0000
Subject: [PATCH 13/17] fix: inclination of an equatorial orbit is never NaN

---
 src/astrodynx/twobody/_orb_elements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index 552cb16..5be0f69 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -26,7 +26,9 @@ def inclination(h_vec: ArrayLike) -> Array:
         $$
         where $i$ is the inclination, $h_z$ is the z-component of the specific angular momentum vector, and $h$ is the norm of the specific angular momentum vector.
     """
-    return jnp.arccos(h_vec[..., 2:3] / vector_norm(h_vec, axis=-1, keepdims=True))
+    cos_incl = h_vec[..., 2:3] / vector_norm(h_vec, axis=-1, keepdims=True)
+    # Rounding can push the ratio of an equatorial orbit past one
+    return jnp.arccos(jnp.clip(cos_incl, -1.0, 1.0))
 
 
 def _angle_about(from_vec: ArrayLike, to_vec: ArrayLike, axis_vec: ArrayLike) -> Array:
-- 
2.43.0


From 391c03d490ea2d286586795bc53194e0a6c3e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:20 +0000
Subject: [PATCH 14/17] fix: radius event can be located by a root finder

---
 src/astrodynx/events/radius.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/events/radius.py b/src/astrodynx/events/radius.py
index f426e0a..c9ccfe5 100644
--- a/src/astrodynx/events/radius.py
+++ b/src/astrodynx/events/radius.py
@@ -6,7 +6,10 @@ from typing import Any
 
 
 def radius_islow(
-    t: DTypeLike, x: ArrayLike, args: PyTree[Any] = {"rmin": 0.0}, **kwargs: Any
+    t: DTypeLike,
+    x: ArrayLike | None = None,
+    args: PyTree[Any] = {"rmin": 0.0},
+    **kwargs: Any,
 ) -> Array:
     r"""Returns the difference between the radius and the minimum radius.
 
@@ -14,7 +17,7 @@ def radius_islow(
         t: The time.
         x: (N,) The state vector, where the first 3 elements are the position vector.
         args: Static arguments, which must contain a key "rmin" with the minimum radius.
-        kwargs: Any additional arguments.
+        kwargs: Any additional arguments, among them the state vector as `y` in place of `x`.
 
     Returns:
         The difference between the radius and the minimum radius.
@@ -30,4 +33,6 @@ def radius_islow(
         This event can be used to terminate the propagation of an orbit when the radius falls below a certain threshold.
     """
     rmin = args["rmin"]
+    # An event with a root finder is given the state vector by the name `y`
+    x = kwargs["y"] if x is None else x
     return jnp.linalg.vector_norm(x[:3]) - rmin
-- 
2.43.0


From b91dfc882989a0db45507cbd2f41d43075eef2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:27 +0000
Subject: [PATCH 15/17] fix: universal functions accept integers and arguments
 of different precision

---
 src/astrodynx/twobody/_uniformulas.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 73e3e32..30f95b1 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -7,6 +7,11 @@ from jax import Array
 """Universal functions for two-body orbital mechanics."""
 
 
+def _promoted(chi: ArrayLike, alpha: DTypeLike) -> Array:
+    r"""Returns chi with the floating point type of the universal functions, which all their branches share."""
+    return chi * jnp.ones_like(alpha * 1.0)
+
+
 def _near_parabolic(
     n: int, chi: ArrayLike, alpha: DTypeLike, closed_form: Array
 ) -> Array:
@@ -108,6 +113,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc0(chi, alpha)
         Array([ 0.5403..., -0.4161...], dtype=float32)
     """
+    chi = _promoted(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
         lambda: jnp.cos(jnp.sqrt(alpha) * chi),
@@ -161,6 +167,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc1(chi, alpha)
         Array([0.8414..., 0.9092...], dtype=float32)
     """
+    chi = _promoted(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
         lambda: jnp.sin(jnp.sqrt(alpha) * chi) / jnp.sqrt(alpha),
@@ -214,6 +221,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc2(chi, alpha)
         Array([0.4596..., 1.4161...], dtype=float32)
     """
+    chi = _promoted(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (1 - jnp.cos(jnp.sqrt(alpha) * chi)) / alpha,
@@ -267,6 +275,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc3(chi, alpha)
         Array([0.1585..., 1.0907...], dtype=float32)
     """
+    chi = _promoted(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (jnp.sqrt(alpha) * chi - jnp.sin(jnp.sqrt(alpha) * chi))
@@ -324,6 +333,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc4(chi, alpha)
         Array([0.0403..., 0.5838...], dtype=float32)
     """
+    chi = _promoted(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (alpha * chi**2 - 2 + 2 * jnp.cos(jnp.sqrt(alpha) * chi))
@@ -379,6 +389,7 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
         >>> adx.twobody.ufunc5(chi, alpha)
         Array([0.2426..., 1.6411...], dtype=float32)
     """
+    chi = _promoted(chi, alpha)
     closed_form = jax.lax.cond(
         alpha > 0,
         lambda: (
-- 
2.43.0


From 83cffbfe0f2622ccebf26b3f436fbf974a34d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:19 +0000
Subject: [PATCH 16/17] fix: universal functions accept 32-bit integers in
 double precision mode

---
 src/astrodynx/twobody/_uniformulas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 30f95b1..2321a80 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -9,7 +9,7 @@ from jax import Array
 
 def _promoted(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""Returns chi with the floating point type of the universal functions, which all their branches share."""
-    return chi * jnp.ones_like(alpha * 1.0)
+    return chi * jnp.ones_like(jnp.sqrt(alpha))
 
 
 def _near_parabolic(
-- 
2.43.0


From 1becc802b8ad6e7dd81b36ad1b6a72d74aebc2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:01 +0000
Subject: [PATCH 17/17] fix: Kepler propagator is accurate for passages much
 closer than the starting distance

---
 src/astrodynx/prop/_kepler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index 98d565e..2f9265e 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -96,8 +96,12 @@ def kepler(
     alpha = 1.0 / semimajor_axis(r0, v0, mu)
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
-    # The residual has the dimension of length**1.5, so small lengths need a smaller tolerance.
-    tol = 1e-6 * jnp.minimum(1.0, r0 * jnp.sqrt(r0))
+    # The residual has the dimension of length**1.5: the tolerance follows the smallest
+    # distance on the orbit, where a residual displaces the body most.
+    h = jnp.linalg.vector_norm(jnp.cross(r0_vec, v0_vec))
+    p = h / mu * h
+    r_p = jax.lax.stop_gradient(p / (1 + jnp.sqrt(jnp.maximum(1 - alpha * p, 0))))
+    tol = 1e-6 * jnp.minimum(1.0, r_p * jnp.sqrt(r_p))
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None, None))(
         jnp.atleast_1d(ts), alpha, r0, jnp.squeeze(sigma0), mu, tol
     )
-- 
2.43.0

