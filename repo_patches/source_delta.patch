From 0471555c6838835e2e7b23bb644e227d2fec4986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 01/25] fix: validate the final position vector too

assert_position_vectors_are_valid looped over both vectors but checked the
initial one twice, so a null or wrongly shaped final vector was accepted.
---
 src/lamberthub/utils/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 8b78fbe..7cff373 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -87,7 +87,7 @@ def assert_position_vectors_are_valid(r1, r2):
     """
     # Check if position vectors have proper dimensions
     for r in [r1, r2]:
-        assert_position_vector_is_valid(r1)
+        assert_position_vector_is_valid(r)
 
     # Check both vectors are different
     if np.all(np.equal(r1, r2)):
-- 
2.43.0


From c3c78d3c08b797563a78bad0b31173af525ea7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 02/25] fix: use both radii in the f_dot Lagrange coefficient
 of gauss1809

f_dot = sqrt(mu/p) tan(dtheta/2) ((1 - cos(dtheta))/p - 1/r1 - 1/r2); the
radius of the initial point was used twice, so v2 did not belong to the same
orbit as v1 whenever the two radii differ.
---
 src/lamberthub/p_solvers/gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 57d6f77..b67818d 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -153,7 +153,7 @@ def gauss1809(
     f_dot = (
         np.sqrt(mu / p)
         * np.tan(dtheta / 2)
-        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r1_norm)
+        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r2_norm)
     )
     g_dot = 1 - r1_norm * (1 - np.cos(dtheta)) / p
 
-- 
2.43.0


From e4d4a611f3b1822b78ba673b82e3418a64380449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:54 +0000
Subject: [PATCH 03/25] fix: handle parabolic and hyperbolic arcs in gauss1809

For x < 0 the orbit is a hyperbola and the half change in hyperbolic anomaly
enters through cosh, not cos; for x == 0 deltaAnomaly was left unbound.
---
 src/lamberthub/p_solvers/gauss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index b67818d..99a2419 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -133,18 +133,20 @@ def gauss1809(
     if x > 0:
         # The orbit is an ellipse, being deltaAnomaly = deltaE
         deltaAnomaly = 2 * np.arccos(1 - 2 * x)
+        cos_half_anomaly = np.cos(deltaAnomaly / 2)
     elif x == 0:
         # The orbit is a parabola
-        pass
+        cos_half_anomaly = 1.0
     else:
         # The orbit is an hyperbola, being deltaAnomaly = deltaF
         deltaAnomaly = 2 * np.arccosh(1 - 2 * x)
+        cos_half_anomaly = np.cosh(deltaAnomaly / 2)
 
     # Compute the orbital parameter
     p = (r1_norm * r2_norm * (1 - np.cos(dtheta))) / (
         r1_norm
         + r2_norm
-        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * np.cos(deltaAnomaly / 2)
+        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * cos_half_anomaly
     )
 
     # Evaluate f, g, f_dot and g_dot functions for future solving v1 and v2
-- 
2.43.0


From 9714cf25d65c3efed479fb42f5add1fd7f6a3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 04/25] fix: reject multi-revolution requests in
 zero-revolution solvers

gauss1809, battin1984 and vallado2013 ignored M and silently returned the
direct transfer when M >= 1. Raise ValueError as avanzini2008, thorne2004,
jiang2016 and pan2016 do.
---
 src/lamberthub/p_solvers/battin.py          | 6 ++++++
 src/lamberthub/p_solvers/gauss.py           | 6 ++++++
 src/lamberthub/universal_solvers/vallado.py | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index b0a75a3..6036785 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -83,6 +83,12 @@ def battin1984(
     Technology).
 
     """
+    # Only the direct transfer is solved by this routine
+    if M > 0:
+        raise ValueError(
+            "Battin is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 99a2419..54a5112 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -86,6 +86,12 @@ def gauss1809(
     Fundamentals of astrodynamics. Courier Dover Publications.
 
     """
+    # Only the direct transfer is solved by this routine
+    if M > 0:
+        raise ValueError(
+            "Gauss is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 344f24f..2fdd34f 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -86,6 +86,12 @@ def vallado2013(
     (Vol. 12). Springer Science & Business Media.
 
     """
+    # Only the direct transfer is solved by this routine
+    if M > 0:
+        raise ValueError(
+            "Vallado is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
-- 
2.43.0


From 52e5ece28455e86ada5aefe3dd9b11a8e18887f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 05/25] fix: give izzo2015 the interface and validation of the
 other solvers

izzo2015 skipped the validation of its inputs and rejected full_output. The
compiled kernel now sits behind a Python entry point that validates, and
reports the number of iterations.
---
 src/lamberthub/universal_solvers/izzo.py | 38 ++++++++++++++++++------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0e293b8..1e9c5bd 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -1,13 +1,15 @@
 """A module hosting all algorithms devised by Izzo"""
 
+import time
+
 from numba import njit as jit
 import numpy as np
 from numpy import cross, pi
 
 from lamberthub.linalg import norm
+from lamberthub.utils.assertions import assert_parameters_are_valid
 
 
-@jit(cache=True, fastmath=True)
 def izzo2015(
     mu,
     r1,
@@ -19,6 +21,7 @@ def izzo2015(
     maxiter=35,
     atol=1e-5,
     rtol=1e-7,
+    full_output=False,
 ):
     r"""
     Solves Lambert problem using Izzo's devised algorithm.
@@ -43,6 +46,8 @@ def izzo2015(
         Absolute tolerance.
     rtol: float
         Relative tolerance.
+    full_output: bool
+        If True, the number of iterations and time per iteration are also returned.
 
     Returns
     -------
@@ -50,8 +55,10 @@ def izzo2015(
         Initial velocity vector.
     v2: numpy.array
         Final velocity vector.
-    numiter: list
+    numiter: int
         Number of iterations.
+    tpi: float
+        Time per iteration in seconds.
 
     Notes
     -----
@@ -80,8 +87,21 @@ def izzo2015(
 
     """
     # Check that input parameters are safe
-    # assert_parameters_are_valid(mu, r1, r2, tof, M)
+    assert_parameters_are_valid(mu, r1, r2, tof, M)
+
+    # Solve the problem
+    tic = time.perf_counter() if full_output else 0.0
+    v1, v2, numiter = _izzo2015(
+        mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol
+    )
+    tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
+
+    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
 
+
+@jit(cache=True, fastmath=True)
+def _izzo2015(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol):
+    """Solve the transfer once its input parameters are known to be safe."""
     # Chord
     c = r2 - r1
     c_norm, r1_norm, r2_norm = norm(c), norm(r1), norm(r2)
@@ -112,7 +132,7 @@ def izzo2015(
     T = np.sqrt(2 * mu / s**3) * tof
 
     # Find solutions and filter them
-    x, y = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
+    x, y, numiter = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
 
     # Reconstruct
     gamma = np.sqrt(mu * s / 2)
@@ -126,7 +146,7 @@ def izzo2015(
     # Solve for the initial and final velocity
     v1 = V_r1 * (r1 / r1_norm) + V_t1 * i_t1
     v2 = V_r2 * (r2 / r2_norm) + V_t2 * i_t2
-    return v1, v2
+    return v1, v2, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -163,10 +183,10 @@ def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
     x_0 = _initial_guess(T, ll, M, is_low_path)
 
     # Start Householder iterations from x_0 and find x, y
-    x = _householder(x_0, T, ll, M, atol, rtol, maxiter)
+    x, numiter = _householder(x_0, T, ll, M, atol, rtol, maxiter)
     y = _compute_y(x, ll)
 
-    return x, y
+    return x, y, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -332,7 +352,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
     this module and is not really reusable.
 
     """
-    for _ in range(1, maxiter + 1):
+    for numiter in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
@@ -347,7 +367,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         )
 
         if abs(p - p0) < rtol * np.abs(p0) + atol:
-            return p
+            return p, numiter
         p0 = p
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From 4db37e509fc4c6689093e42c5eb8e591f6fa72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 06/25] fix: do not return unconverged results from gooding1990

_xlamb_iter returned its last iterate when maxiter was exhausted, and the
check after the T(min) search compared numiter + 1 with maxiter, so it missed
exhaustion and rejected convergence in the last but one iteration.
---
 src/lamberthub/universal_solvers/gooding.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 5d5a76a..ef33952 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -448,10 +448,8 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # desired range
             if np.abs(xmold - xm) < rtol * np.abs(xmold) + atol:
                 break
-
-        # Check last
-        if (numiter + 1) == maxiter:
-            raise ValueError("Exceeded max iterations!")
+        else:
+            raise ValueError("Exceeded maximum number of iterations!")
 
         # Now proceed from T(min) to full starter
         tdiffm = tin - tmin
@@ -551,7 +549,8 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
 def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
     """Run the Halley iteration for the independent variable in Gooding's method.
 
-    Returns (x, numiter) once convergence is reached or maxiter is exhausted.
+    Returns (x, numiter) once convergence is reached and raises ValueError when
+    maxiter is exhausted.
     """
     xold = x
     for numiter in range(1, maxiter + 1):
@@ -566,7 +565,7 @@ def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
         if x_atol <= atol and x_rtol <= rtol:
             return x, numiter
 
-    return x, maxiter
+    raise ValueError("Exceeded maximum number of iterations!")
 
 
 def vlamb(
-- 
2.43.0


From 46876f5b14aa4f45437de099976bc3ef020c5a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 07/25] fix: return the five expected values at the minimum
 time in gooding1990

vlamb unpacks five values from xlamb, but the branch taken when the time of
flight equals the minimum one returned four of them.
---
 src/lamberthub/universal_solvers/gooding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index ef33952..51f90d5 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -434,6 +434,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
         # implementation imposed 12 iterations but they were not considered to
         # be part of numerical routine as they belong to the initial guess.
         # Here, we impose it not to exceeded the number of iterations
+        tic = time.perf_counter() if full_output else 0.0
         for numiter in range(1, maxiter + 1):
             # Call TLAMB routine
             tmin, dt, d2t, d3t = tlamb(m, q, qsqfm1, xm, 3)
@@ -462,7 +463,8 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # Found minimum time condition
             x = xm
             n = 1
-            return n, x, None, numiter
+            tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
+            return n, x, None, numiter, tpi
 
         else:
             n = 3
-- 
2.43.0


From eff888977cbbff79e8cd9e1e78715b6099303a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 08/25] fix: let gooding1990 converge on the minimum-energy
 ellipse

The relative error of the Halley iteration was measured as x / xold - 1, which
divides by zero (ZeroDivisionError once compiled, NaN otherwise) when the
solution is x = 0 and cannot settle when it is next to it. x is of order one,
so measure its relative change against max(1, |x|).
---
 src/lamberthub/universal_solvers/gooding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 51f90d5..687d529 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -563,8 +563,8 @@ def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
             xold = x
             x = x + t * dt / (dt * dt + t * d2t / 2.0)
 
-        x_atol, x_rtol = np.abs(x - xold), np.abs(x / xold - 1)
-        if x_atol <= atol and x_rtol <= rtol:
+        dx = np.abs(x - xold)
+        if dx <= atol and dx <= rtol * max(1.0, np.abs(xold)):
             return x, numiter
 
     raise ValueError("Exceeded maximum number of iterations!")
-- 
2.43.0


From 901fc71cabb4caeb719a2da1de8b997c101f8c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 09/25] fix: do not accept a stalled secant step in
 avanzini2008

Two equal residuals stop the secant method, but the midpoint was returned as
converged however far apart the two iterates were. Fail as scipy's newton does
unless they already agree within the tolerances.
---
 src/lamberthub/ecc_solvers/avanzini.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 23dda8e..f4ca824 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -210,7 +210,9 @@ def _secant(f, x0, args, maxiter, atol, rtol):
     f1 = f(x1, *args)
     for i in range(1, maxiter + 1):
         if f1 == f0:
-            return (x1 + x0) * 0.5, i
+            if abs(x1 - x0) <= atol + rtol * abs(x1):
+                return (x1 + x0) * 0.5, i
+            break
         x_new = x1 - f1 * (x1 - x0) / (f1 - f0)
         if abs(x_new - x1) <= atol + rtol * abs(x_new):
             return x_new, i
-- 
2.43.0


From 29f7da5ca7dda4849291092ff6f43c17b369d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 10/25] fix: honour the truth value of boolean flags

Comparing flags with `is True`/`is False` ignores numpy booleans, which the
library's own comparisons produce: thorne2004 mixed a retrograde transfer angle
with a prograde normal for np.bool_(False), gooding1990 and arora2013 returned
the high path for np.bool_(True), and full_output was ignored.
---
 src/lamberthub/ecc_solvers/avanzini.py        | 2 +-
 src/lamberthub/p_solvers/battin.py            | 2 +-
 src/lamberthub/p_solvers/gauss.py             | 2 +-
 src/lamberthub/p_solvers/jiang.py             | 2 +-
 src/lamberthub/p_solvers/pan.py               | 2 +-
 src/lamberthub/regularization/delatorre.py    | 2 +-
 src/lamberthub/series_solvers/thorne.py       | 6 +++---
 src/lamberthub/universal_solvers/arora.py     | 4 ++--
 src/lamberthub/universal_solvers/der.py       | 2 +-
 src/lamberthub/universal_solvers/gooding.py   | 4 ++--
 src/lamberthub/universal_solvers/izzo.py      | 6 +++---
 src/lamberthub/universal_solvers/mcelreath.py | 2 +-
 src/lamberthub/universal_solvers/negrete.py   | 2 +-
 src/lamberthub/universal_solvers/vallado.py   | 2 +-
 src/lamberthub/utils/angles.py                | 4 ++--
 15 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index f4ca824..2861bc7 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -139,7 +139,7 @@ def avanzini2008(
     # Compute the velocity vectors from the classic orbital elements
     (_, v1), (_, v2) = [coe2rv(mu, p, ecc, inc, raan, argp, nu) for nu in [nu_1, nu_2]]
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True)
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 6036785..832e8fd 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -163,7 +163,7 @@ def battin1984(
     v1 = -r11 * (s11 * (r1 - r2) - t11 * r1 / r1_norm)
     v2 = -r11 * (s11 * (r1 - r2) + t11 * r2 / r2_norm)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 54a5112..c2f2ce4 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -169,7 +169,7 @@ def gauss1809(
     v1 = (r2 - f * r1) / g
     v2 = f_dot * r1 + g_dot * v1
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index f754adc..3e3c2d4 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -122,7 +122,7 @@ def jiang2016(
         tpi = 0.0
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, theta, p)
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 42a1b4a..534b93b 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -140,7 +140,7 @@ def pan2016(
     elements = _elements_at_omega(geometry, omega)
     v1, v2 = _reconstruct_velocities(mu, geometry, elements)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _get_planar_geometry(r1, r2, theta, is_prograde):
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index f176ad6..54a9abf 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -97,7 +97,7 @@ def delatorre2018(
     tac = time.perf_counter()
     tpi = (tac - tic) / numiter
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _find_z(P, Q, mu, tof, M, is_low_path, maxiter, atol, rtol):
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index daa81ec..8e48cb1 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -114,7 +114,7 @@ def thorne2004(
     y = get_y_from_x(x, r1, r2, semiperimeter, c_norm, is_prograde)
     v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, is_prograde)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def get_parabolic_tof(mu, s, c, mp):
@@ -304,7 +304,7 @@ def get_lambda(r1, r2, s, c, is_prograde):
     if i_h[2] < 0:
         ll = -ll
 
-    return -ll if is_prograde is False else ll
+    return ll if is_prograde else -ll
 
 
 def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
@@ -321,7 +321,7 @@ def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
     else:
         i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
 
-    if is_prograde is False:
+    if not is_prograde:
         ll, i_t1, i_t2 = -ll, -i_t1, -i_t2
 
     gamma = np.sqrt(mu * s / 2)
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 447ef50..b0d3b08 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -323,7 +323,7 @@ def arora2013(
     v1 = (r2_hat - f * r1_hat) / g * (L_ref / T_ref)
     v2 = (g_dot * r2_hat - r1_hat) / g * (L_ref / T_ref)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _get_multirev_k_guess(tof, tau, S, M, is_low_path, atol, rtol):
@@ -392,7 +392,7 @@ def _get_multirev_k_guess(tof, tau, S, M, is_low_path, atol, rtol):
     if abs(tof - tof_min) <= atol:
         return k_min
 
-    lower, upper = (k_min, k_right) if is_low_path is True else (k_left, k_min)
+    lower, upper = (k_min, k_right) if is_low_path else (k_left, k_min)
     return brentq(
         lambda k: tof_at(k) - tof,
         lower,
diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 401c1bb..1629961 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -115,7 +115,7 @@ def der2011(
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, c_norm, m, n, x, y)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 687d529..1f55fe3 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -134,7 +134,7 @@ def gooding1990(
     v1 = vr1 * i_r1 + vt1 * i_t1
     v2 = vr2 * i_r2 + vt2 * i_t2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
@@ -661,7 +661,7 @@ def vlamb(
 
     # Filter the solution
     if n_sol > 1:
-        if is_low_path is True:
+        if is_low_path:
             x_sol = np.max([x1_sol, x2_sol])
         else:
             x_sol = np.min([x1_sol, x2_sol])
diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 1e9c5bd..4beb962 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -96,7 +96,7 @@ def izzo2015(
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
@@ -126,7 +126,7 @@ def _izzo2015(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol)
 
     # Correct transfer angle parameter and tangential vectors regarding orbit's
     # inclination
-    ll, i_t1, i_t2 = (-ll, -i_t1, -i_t2) if is_prograde is False else (ll, i_t1, i_t2)
+    ll, i_t1, i_t2 = (ll, i_t1, i_t2) if is_prograde else (-ll, -i_t1, -i_t2)
 
     # Non dimensional time of flight
     T = np.sqrt(2 * mu / s**3) * tof
@@ -307,7 +307,7 @@ def _initial_guess(T, ll, M, is_low_path):
         # Filter out the solution
         x_0 = (
             np.max(np.array([x_0l, x_0r]))
-            if is_low_path is True
+            if is_low_path
             else np.min(np.array([x_0l, x_0r]))
         )
 
diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index d6f6010..bf30c26 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -117,7 +117,7 @@ def mcelreath2025(
     v1 = v_c * i_c + v_r * i_r1
     v2 = v_c * i_c - v_r * i_r2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index dc51967..e2e8bbd 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -101,7 +101,7 @@ def negrete2024(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 2fdd34f..aeea2c2 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -148,7 +148,7 @@ def vallado2013(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 3a1318a..f38edd2 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -50,7 +50,7 @@ def get_transfer_angle(r1, r2, is_prograde):
     theta0 = np.arccos(dot(r1, r2) / (r1_norm * r2_norm))
 
     # Fix the value of theta if necessary
-    if is_prograde is True:
+    if is_prograde:
         dtheta = theta0 if alpha > 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
@@ -89,7 +89,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
 
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
-    if is_prograde is True:
+    if is_prograde:
         i_h = i_h if alpha > 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
-- 
2.43.0


From 18972c311b35d78eb1e6fbedd222413db599f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 11/25] fix: tell prograde from retrograde transfers on polar
 planes

When the transfer plane holds the Z axis both flags selected the long way, so
the short transfer could not be requested and izzo2015 and thorne2004, which
count the plane as prograde, disagreed with the rest (thorne2004 even with
itself). Let the direct sense from r1 to r2 be the prograde one everywhere.
---
 src/lamberthub/utils/angles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index f38edd2..e6df9b9 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -51,7 +51,7 @@ def get_transfer_angle(r1, r2, is_prograde):
 
     # Fix the value of theta if necessary
     if is_prograde:
-        dtheta = theta0 if alpha > 0 else 2 * np.pi - theta0
+        dtheta = theta0 if alpha >= 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
 
@@ -90,7 +90,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
     if is_prograde:
-        i_h = i_h if alpha > 0 else -i_h
+        i_h = i_h if alpha >= 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
 
-- 
2.43.0


From 770975b87eba9112d54707b6898c6af378c83f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 12/25] fix: reject collinear position vectors in every solver

Opposite positions do not define the plane of the transfer (and, but for the
rectilinear orbits of battin1984 and vallado2013, neither do aligned ones).
battin1984, thorne2004, avanzini2008, gooding1990, izzo2015 and delatorre2018
returned NaN or velocities in an arbitrary plane, and arora2013 failed by luck;
raise ValueError as the other solvers do.
---
 src/lamberthub/ecc_solvers/utils.py         |  6 +++++-
 src/lamberthub/p_solvers/battin.py          |  6 +++++-
 src/lamberthub/regularization/delatorre.py  |  8 +++++++-
 src/lamberthub/series_solvers/thorne.py     |  8 +++++++-
 src/lamberthub/universal_solvers/arora.py   |  2 ++
 src/lamberthub/universal_solvers/gooding.py |  2 ++
 src/lamberthub/universal_solvers/izzo.py    | 12 +++++++++++-
 7 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index b44ec73..95fca02 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -26,7 +26,10 @@ from lamberthub.utils.angles import (
     get_orbit_normal_vector,
     get_transfer_angle,
 )
-from lamberthub.utils.assertions import assert_transfer_angle_not_zero
+from lamberthub.utils.assertions import (
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 from lamberthub.utils.kepler import kepler_from_nu
 
 
@@ -63,6 +66,7 @@ def get_geometry(r1, r2, is_prograde):
     # Compute angles
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     w_c = get_transfer_angle(r1, (r2 - r1), is_prograde)
 
     return r1_norm, r2_norm, c_norm, dtheta, w_c
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 832e8fd..cae1b64 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -6,7 +6,10 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+)
 
 
 def battin1984(
@@ -96,6 +99,7 @@ def battin1984(
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     semiperimeter = (r1_norm + r2_norm + c_norm) / 2
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Compute the auxiliary lambda parameter. The variable _lambda is used here
     # as lambda is a reserved keyword in Python for declaring inline functions.
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index 54a9abf..813f5b7 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -6,7 +6,11 @@ import time
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def delatorre2018(
@@ -78,6 +82,8 @@ def delatorre2018(
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     P = r1_norm + r2_norm
     Q = 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 8e48cb1..125cab8 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -8,7 +8,11 @@ from scipy.special import factorial, poch
 
 from lamberthub.linalg import cross, norm
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def thorne2004(
@@ -97,6 +101,8 @@ def thorne2004(
 
     # Compute the cosine of the transfer angle and check
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Thorne uses the upper sign for transfers greater than 180 degrees and the
     # lower sign for transfers lower than 180 degrees in equations (1)-(5).
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index b0d3b08..74c44cb 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -10,6 +10,7 @@ from scipy.optimize import brentq, minimize_scalar
 from lamberthub.utils.angles import get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -93,6 +94,7 @@ def arora2013(
     # Compute the transfer angle and the transfer angle parameter
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     d = 1 if dtheta <= np.pi else -1
 
     # Compute the characteristic length and time variables
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 1f55fe3..a0a7aaa 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -9,6 +9,7 @@ from numpy.linalg import norm
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -105,6 +106,7 @@ def gooding1990(
     # exception its value is found to be the zero.
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
+    assert_transfer_angle_not_pi(theta)
 
     # Include additional revolutions if necessary.
     dtheta = 2.0 * np.pi * M + theta
diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 4beb962..587d998 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -7,7 +7,12 @@ import numpy as np
 from numpy import cross, pi
 
 from lamberthub.linalg import norm
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def izzo2015(
@@ -89,6 +94,11 @@ def izzo2015(
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
+    # Check that the plane of the transfer is defined
+    dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
+
     # Solve the problem
     tic = time.perf_counter() if full_output else 0.0
     v1, v2, numiter = _izzo2015(
-- 
2.43.0


From 779f12d645fcc533200f96e1fa3e46acfe0adc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 13/25] fix: raise ValueError for coincident positions in
 izzo2015

abs(ll) rounds to one when the positions are distinct but closer than the
floating point resolution; the assertion let an AssertionError (or, under -O,
NaN) reach the caller.
---
 src/lamberthub/universal_solvers/izzo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 587d998..e28a162 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -173,7 +173,8 @@ def _reconstruct(x, y, r1, r2, ll, gamma, rho, sigma):
 def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
     """Computes all x, y for given number of revolutions."""
     # For abs(ll) == 1 the derivative is not continuous
-    assert abs(ll) < 1
+    if abs(ll) >= 1:
+        raise ValueError("Initial and final position vectors are too close!")
 
     M_max = np.floor(T / pi)
     T_00 = np.arccos(ll) + ll * np.sqrt(1 - ll**2)  # T_xM
-- 
2.43.0


From 6ed2851c64a72d0b3180bf7a88b8e86c4a6ce479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 14/25] fix: insert the generated benchmark section literally

The section was used as a re.sub template, so a backslash in a machine or case
name was expanded or rejected (re.error).
---
 scripts/generate_benchmark_report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 73523d4..d165fb9 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -271,7 +271,7 @@ def update_readme(readme_path, section):
             rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
             flags=re.DOTALL,
         )
-        updated = pattern.sub(generated_content, content)
+        updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
 
-- 
2.43.0


From d984591394b0b81fcdfb1ac3b20f1cf8ab85de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 15/25] fix: bracket the semimajor axis in jiang2016 in units
 of the geometry

The brackets and finite-difference steps mixed lengths with the bare number
1.0, so the solver failed or lost accuracy when distances are small in the
chosen length unit.
---
 src/lamberthub/p_solvers/jiang.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 3e3c2d4..39f5e02 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -321,7 +321,7 @@ def _find_and_solve_elliptic(
     """
     eps = 1.4901161193847656e-08
     lower = a_min * (1 + eps)
-    upper = max(2 * lower, 1.0)
+    upper = 2 * lower
 
     f_lower = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
     f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
@@ -343,7 +343,7 @@ def _find_and_solve_elliptic(
             lower = x
             f_lower_iter = f_x
 
-        step = 1.4901161193847656e-08 * max(1.0, np.abs(x))
+        step = 1.4901161193847656e-08 * np.abs(x)
         x_minus = max(lower, x - step)
         x_plus = min(upper, x + step)
         if x_plus != x_minus:
@@ -378,8 +378,8 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
     JIT-compiled function, removing all Python closure overhead.
     """
     eps = 1.4901161193847656e-08
-    lower = -max(s, c, 1.0)
-    upper = -eps * max(s, c, 1.0)
+    lower = -max(s, c)
+    upper = -eps * max(s, c)
 
     while (_tof_hyperbolic(mu, lower, s, c, theta) - tof) < 0:
         lower *= 2
@@ -398,7 +398,7 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
             lower = x
             f_lower_iter = f_x
 
-        step = 1.4901161193847656e-08 * max(1.0, np.abs(x))
+        step = 1.4901161193847656e-08 * np.abs(x)
         x_minus = max(lower, x - step)
         x_plus = min(upper, x + step)
         if x_plus != x_minus:
@@ -461,7 +461,7 @@ def _get_elliptic_bracket(mu, tof, a_min, s, c, theta, long_period):
     """
     eps = 1.4901161193847656e-08
     lower = a_min * (1 + eps)
-    upper = max(2 * lower, 1.0)
+    upper = 2 * lower
 
     def residual(axis):
         """Evaluate the elliptic time-of-flight residual at ``axis``."""
@@ -504,8 +504,8 @@ def _get_hyperbolic_bracket(mu, tof, s, c, theta):
 
     """
     eps = 1.4901161193847656e-08
-    lower = -max(s, c, 1.0)
-    upper = -eps * max(s, c, 1.0)
+    lower = -max(s, c)
+    upper = -eps * max(s, c)
 
     def residual(axis):
         """Evaluate the hyperbolic time-of-flight residual at ``axis``."""
@@ -601,7 +601,7 @@ def _numerical_derivative(function, x, lower, upper):
         Centered finite-difference derivative clipped to the active bracket.
 
     """
-    step = 1.4901161193847656e-08 * max(1.0, np.abs(x))
+    step = 1.4901161193847656e-08 * np.abs(x)
     x_minus = max(lower, x - step)
     x_plus = min(upper, x + step)
 
-- 
2.43.0


From e077a7d82529d0b8f53243beaf95a95fe7bae886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 16/25] fix: report one iteration in thorne2004 when a bracket
 end is the root

---
 src/lamberthub/series_solvers/thorne.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 125cab8..068ffb9 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -236,6 +236,12 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
         """Compute the time-of-flight residual for the semimajor axis."""
         return lagrange_tof(mu, s, c, a, mp, branch) - tof
 
+    # The statistics of the root finder are not set when a bracket end is
+    # already the root, so that case is handled here.
+    for bound in (lower, upper):
+        if f(bound) == 0:
+            return bound, branch, 1
+
     a, r = brentq(
         f, lower, upper, xtol=atol, rtol=rtol, maxiter=maxiter, full_output=True
     )
-- 
2.43.0


From 4869237d110e2cdf3e3a1f1233fbdc843e2a5210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 17/25] fix: use the sum of the radii to readjust psi in
 vallado2013

The readjusted psi compared r1*r2 with A, which have different units, so the
loop looking for a positive y could run forever on fast transfers.
---
 src/lamberthub/universal_solvers/vallado.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index aeea2c2..40be38b 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -119,7 +119,7 @@ def vallado2013(
                 psi = (
                     0.8
                     * (1.0 / c3(psi))
-                    * (1.0 - (r1_norm * r2_norm) * np.sqrt(c2(psi)) / A)
+                    * (1.0 - (r1_norm + r2_norm) * np.sqrt(c2(psi)) / A)
                 )
                 y = _y_at_psi(psi, r1_norm, r2_norm, A)
 
-- 
2.43.0


From c357e28c5860138638ad3eca0be466c9e60bde58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 18/25] fix: compare lengths with lengths when pan2016 rejects
 degenerate conics

The guards used an absolute 1e-8, so with small units every trial conic was
rejected and the solver always fell back.
---
 src/lamberthub/p_solvers/pan.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 534b93b..8d74df2 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -261,7 +261,8 @@ def _elements_at_omega(geometry, omega):
 
     cos_omega, sin_omega = np.cos(omega), np.sin(omega)
     chord_projection = xc * cos_omega + yc * sin_omega
-    if np.isclose(chord_projection, 0.0):
+    chord2 = xc**2 + yc**2
+    if np.abs(chord_projection) <= 1e-12 * np.sqrt(chord2):
         raise ValueError("Invalid argument of periapsis.")
 
     eccentricity = (r1_norm - r2_norm) / chord_projection
@@ -273,7 +274,7 @@ def _elements_at_omega(geometry, omega):
         r2_norm * (x1 * cos_omega + y1 * sin_omega)
         - r1_norm * (x2 * cos_omega + y2 * sin_omega)
     )
-    if np.isclose(denominator, 0.0):
+    if np.abs(denominator) <= 1e-15 * chord2:
         raise ValueError("Invalid semi-major axis.")
 
     semi_major_axis = numerator / denominator
-- 
2.43.0


From 5124161fb9040f1fdcc7bcaea11070405303e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 19/25] fix: return Sun's y = +-1, not sigma, for parabolic
 transfers in der2011

---
 src/lamberthub/universal_solvers/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 1629961..3176c75 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -148,7 +148,7 @@ def _find_path_parameter(
 ):
     """Solve for Der's path parameter with the Laguerre method."""
     if M == 0 and np.isclose(tau, tau_p, atol=atol, rtol=rtol):
-        return 1.0, sigma, 1
+        return 1.0, _compute_y(sigma, 1.0), 1
 
     is_elliptic = M > 0 or tau > tau_p
     tau_me = _compute_minimum_energy_time(sigma, M) if is_elliptic else None
-- 
2.43.0


From 093a66e9fa0fc12ff947e798ed1dd6e9d872f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 20/25] fix: parenthesise battin1984's u as in equation (55)

---
 src/lamberthub/p_solvers/battin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index cae1b64..0053f55 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -385,7 +385,7 @@ def _u_at_B(B):
     This is equation (55) from the original report [1].
 
     """
-    u = -B / (2 * np.sqrt(1 + B) + 1)
+    u = -B / (2 * (np.sqrt(1 + B) + 1))
     return u
 
 
-- 
2.43.0


From 91c877a0df44a31fafea62118fb7a938da60eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 21/25] fix: evaluate battin1984's continued fraction for xi
 instead of stopping at its first term

---
 src/lamberthub/p_solvers/battin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 0053f55..3a10b9c 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -445,18 +445,18 @@ def _xi_at_x(x, levels=125):
         sigma,
         m1,
     ) = (
-        0,
+        1,
         1,
         1,
         1,
     )
 
     while np.abs(u) > 1e-18 and m1 <= levels:
-        m1 += 1
         gamma = (m1 + 3) ** 2 / (4 * (m1 + 3) ** 2 - 1)
         delta = 1 / (1 + gamma * eta * delta)
         u = u * (delta - 1)
         sigma = sigma + u
+        m1 += 1
 
     xi = 8 * (np.sqrt(1 + x) + 1) / (3 + 1 / (5 + eta + (9 * eta / 7) * sigma))
     return xi
-- 
2.43.0


From 4e51201dd533fde29f30103be9950c2c9b4b2ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 22/25] fix: avanzini2008 ignored the line of apsides and the
 sense of equatorial transfers

For transfers in the fundamental plane the line of nodes is null, so that the
argument of periapsis was measured from nowhere (the arc started on the X-axis
whatever r1), and the inclination was zero for retrograde motion too.
---
 src/lamberthub/ecc_solvers/utils.py | 2 +-
 src/lamberthub/utils/angles.py      | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index 95fca02..a47f619 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -516,7 +516,7 @@ def coe_at_eccT(ecc_T, r1, r2, sense):
     inc, raan = get_orbit_inc_and_raan_from_position_vectors(r1, r2, sense)
 
     # Get a vector in the direction of the line of nodes
-    n = np.cross(np.array([0, 0, 1]), i_h)
+    n = np.array([np.cos(raan), np.sin(raan), 0.0])
     px = r1.dot(n)
     py = r1.dot(cross(i_h, n)) / norm(i_h)
     argp = (np.arctan2(py, px) - nu_1) % (2 * np.pi)
diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index e6df9b9..5ff3c20 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -124,10 +124,13 @@ def get_orbit_inc_and_raan_from_position_vectors(r1, r2, is_prograde):
     # angular momentum one.
     i_h = get_orbit_normal_vector(r1, r2, is_prograde)
 
-    # If the orbit is coplanar with fundamental plane, neither inc or raan are
-    # defined. TODO: use atol and rtol instead of pure floating zero comparison
+    # If the orbit is coplanar with fundamental plane, the line of nodes is not
+    # defined and the X-axis is used instead. The inclination is 180 degrees if
+    # the motion is retrograde. TODO: use atol and rtol instead of pure floating
+    # zero comparison
     if i_h[0] == 0 and i_h[1] == 0:
-        inc, raan = 0, 0
+        inc = 0.0 if i_h[2] > 0 else np.pi
+        raan = 0.0
     else:
         # Inclination is always bounded between [0, pi], so no correction is
         # needed
-- 
2.43.0


From e42f9fc8560d80d9b3d1f32683321ccdcd18fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 23/25] fix: rv2coe lost the orientation of retrograde
 equatorial orbits

An inclination of 180 degrees was not treated as equatorial, so that the null
line of nodes was used and coe2rv did not give the state back.
---
 src/lamberthub/utils/elements.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/utils/elements.py b/src/lamberthub/utils/elements.py
index a36e43f..99b13d7 100644
--- a/src/lamberthub/utils/elements.py
+++ b/src/lamberthub/utils/elements.py
@@ -239,11 +239,13 @@ def rv2coe(k, r, v, tol=1e-8):
     inc = np.arccos(h[2] / h_norm)
 
     circular = ecc < tol
-    equatorial = abs(inc) < tol
+    equatorial = abs(inc) < tol or abs(inc - np.pi) < tol
+    sense = 1 if h[2] >= 0 else -1
 
     if equatorial and not circular:
         raan = 0
-        argp = np.arctan2(e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
+        # Longitude of periapsis
+        argp = np.arctan2(sense * e[1], e[0]) % (2 * np.pi)
         nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
     elif not equatorial and circular:
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
@@ -253,7 +255,8 @@ def rv2coe(k, r, v, tol=1e-8):
     elif equatorial and circular:
         raan = 0
         argp = 0
-        nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude
+        # True longitude
+        nu = np.arctan2(sense * r[1], r[0]) % (2 * np.pi)
     else:
         a = p / (1 - (ecc**2))
         ka = k * a
-- 
2.43.0


From fea4c617a874cb79e89accc11e6c48c43336feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:53 +0000
Subject: [PATCH 24/25] fix: products of integer positions and flight times
 overflowed

dot and cross multiplied the coordinates in the type they were given in, and
battin1984 and gauss1809 squared the flight time likewise: integers in metres
wrapped silently and gave wrong velocities.
---
 src/lamberthub/linalg.py           | 9 +++++++--
 src/lamberthub/p_solvers/battin.py | 2 +-
 src/lamberthub/p_solvers/gauss.py  | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/linalg.py b/src/lamberthub/linalg.py
index 591521d..425f459 100644
--- a/src/lamberthub/linalg.py
+++ b/src/lamberthub/linalg.py
@@ -26,7 +26,7 @@ def dot(v1, v2):
     this issue: https://github.com/numba/numba/issues/8676
 
     """
-    return v1[0] * v2[0] + v1[1] * v2[1] + v1[2] * v2[2]
+    return float(v1[0]) * v2[0] + float(v1[1]) * v2[1] + float(v1[2]) * v2[2]
 
 
 @jit(cache=True, fastmath=True)
@@ -45,8 +45,13 @@ def cross(v1, v2):
     ~np.array
         Resultant vector of the cross product between the two vectors.
 
+    Notes
+    -----
+    The coordinates are cast to double (float64), so that the products of
+    integer coordinates do not overflow.
+
     """
-    return np.cross(v1, v2)
+    return np.cross(1.0 * v1, 1.0 * v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 3a10b9c..b0b283e 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -303,7 +303,7 @@ def _get_m(mu, tof, s, _lambda):
     This is equation (31) from official report [1].
 
     """
-    m = (8 * mu * tof**2) / (s**3 * (1 + _lambda) ** 6)
+    m = (8 * mu * float(tof) ** 2) / (s**3 * (1 + _lambda) ** 6)
     return m
 
 
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index c2f2ce4..bb23020 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -228,7 +228,7 @@ def _get_w(mu, tof, r1_norm, r2_norm, dtheta):
     This is equation number (5.6-3) from Bate's book [2].
 
     """
-    w = (mu * tof**2) / (2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)) ** 3
+    w = (mu * float(tof) ** 2) / (2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)) ** 3
     return w
 
 
-- 
2.43.0


From 4b8d85039adab297bf8478eb61d3e5b5655de5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:48 +0000
Subject: [PATCH 25/25] fix: refuse nan and infinite parameters and positions

nan passes mu <= 0 and tof <= 0, so some solvers returned nan, raised UnboundLocalError or never returned.
---
 src/lamberthub/utils/assertions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 7cff373..fc67949 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -41,8 +41,8 @@ def assert_gravitational_parameter_is_positive(mu):
     ValueError
 
     """
-    # Check positive gravitational parameter
-    if mu <= 0:
+    # Check positive gravitational parameter. The negated form refuses nan too
+    if not 0 < mu < np.inf:
         raise ValueError("Gravitational parameter must be positive!")
     else:
         return True
@@ -67,6 +67,9 @@ def assert_position_vector_is_valid(r):
     if np.all(r == 0):
         raise ValueError("Position vector cannot be the null vector [0,0,0]!")
 
+    if not np.all(np.isfinite(r)):
+        raise ValueError("Position vector components must be finite!")
+
     return True
 
 
@@ -109,7 +112,8 @@ def assert_time_of_flight_is_positive(tof):
     ValueError
 
     """
-    if tof <= 0:
+    # The negated form refuses nan too
+    if not 0 < tof < np.inf:
         raise ValueError("Time of flight must be positive!")
     else:
         return True
-- 
2.43.0

