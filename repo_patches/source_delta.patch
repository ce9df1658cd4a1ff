From 626f0b092f2e9ee499c0c27f5bb6f7802a4fc5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 01/13] fix: initial phases of Schwarzschild stable orbits were
 nan

The polar frequency was computed from radial roots in the wrong order and
the polar elliptic modulus was taken to be 1 instead of 0 when a = 0.
---
 kerrgeopy/initial_conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 946ac94..878fecc 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -201,6 +201,7 @@ def stable_orbit_initial_phases(
         radial_roots = R.roots()
         # numpy returns roots in increasing order
         r4, r3, r2, r1 = radial_roots
+        radial_roots = r1, r2, r3, r4
     else:
         r1, r2, r3, r4 = radial_roots
 
@@ -245,7 +246,7 @@ def stable_orbit_initial_phases(
                 a, constants, radial_roots, polar_roots
             )
 
-        k_theta = sqrt(z_minus / z_plus)
+        k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
-- 
2.43.0


From 5a42dc665176e299cdb611ee0a80d1b4907fedb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 02/13] fix: constants of motion in physical units were scaled
 by the solar mass twice

scale_constants converted M to kg although its result is passed to
conversion functions that expect masses in units of M.
---
 kerrgeopy/constants.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 46d018c..2b9d7bd 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -742,5 +742,4 @@ def scale_constants(constants, M, mu):
     -------
     tuple(double, double, double)
     """
-    M = mass_in_kg(M)
     return constants[0] * mu, constants[1] * mu * M, constants[2] * mu**2 * M**2
-- 
2.43.0


From 857460d29ead44c9436cbb588ccc50aafd7f7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 03/13] fix: trajectory_deltas raised for plunges with four
 real radial roots

The radial roots were passed to polar_solutions instead of the polar roots.
---
 kerrgeopy/orbit.py  | 10 +++++++++-
 kerrgeopy/plunge.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 52b68f6..87551c2 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -156,8 +156,16 @@ class Orbit:
 
                 constants = (self.E, self.L, self.Q)
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
+                # polar polynomial written in terms of z = cos^2(theta)
+                polar_roots = Polynomial(
+                    [
+                        self.Q,
+                        -(self.Q + self.a**2 * (1 - self.E**2) + self.L**2),
+                        self.a**2 * (1 - self.E**2),
+                    ]
+                ).roots()
                 theta, t_theta, phi_theta = polar_solutions(
-                    self.a, constants, radial_roots
+                    self.a, constants, polar_roots
                 )
 
         return (
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 5c1b693..550b718 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -109,7 +109,15 @@ class PlungingOrbit(Orbit):
         else:
             constants = (self.E, self.L, self.Q)
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-            theta, t_theta, phi_theta = polar_solutions(self.a, constants, radial_roots)
+            # polar polynomial written in terms of z = cos^2(theta)
+            polar_roots = Polynomial(
+                [
+                    self.Q,
+                    -(self.Q + self.a**2 * (1 - self.E**2) + self.L**2),
+                    self.a**2 * (1 - self.E**2),
+                ]
+            ).roots()
+            theta, t_theta, phi_theta = polar_solutions(self.a, constants, polar_roots)
 
         return (
             lambda q_r: t_r(q_r + q_r0),
-- 
2.43.0


From 75cf442df5fb989f77ac477b1c917d4441933139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 04/13] fix: is_visible compared the norm of the whole point
 array to the horizon

Every point has to be compared on its own.
---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 87551c2..6e17f01 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -593,7 +593,7 @@ class Orbit:
         return (
             (normal_component >= 0)
             | (np.linalg.norm(projection, axis=1) > event_horizon)
-        ) & (np.linalg.norm(points) > event_horizon)
+        ) & (np.linalg.norm(points, axis=1) > event_horizon)
 
     def animate(
         self,
-- 
2.43.0


From d818189645a2788529fe188589509ee9cca02100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 05/13] fix: stable_trajectory ignored the sign convention for
 negative spins

The constants and frequencies were computed for the standardized (a, x) but
the radial and polar solutions used the original ones.
---
 kerrgeopy/stable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 4aa7ce3..73486b7 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -500,6 +500,7 @@ def stable_trajectory(
     if ((distance_units != "natural") or (time_units != "natural")) and M is None:
         raise ValueError("M must be specified to convert to physical units")
 
+    a, x = _standardize_params(a, x)
     upsilon_r, upsilon_theta, upsilon_phi, gamma = mino_frequencies(a, p, e, x)
     constants = constants_of_motion(a, p, e, x)
     radial_roots = stable_radial_roots(a, p, e, x, constants)
-- 
2.43.0


From 60be97ce70ce56fa0dbbd3005b7e02b8d1ecc933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 06/13] fix: initial phases of complex-root plunges were nan at
 turning points

The documented tolerance was ignored: equatorial plunges and plunges started
at a turning point in r or theta evaluated the inverse solutions outside of
their domain.
---
 kerrgeopy/initial_conditions.py | 60 ++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 878fecc..ea71b96 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -342,33 +342,47 @@ def plunging_orbit_initial_phases(
         rho_r = np.real(r3)
         rho_i = np.imag(r4)
 
-        # equation 47
-        A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
-        B = sqrt((r1 - rho_r) ** 2 + rho_i**2)
-        k_r = sqrt(((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B))
-        # equation 49
-        lambda_r0 = (
-            -1
-            / sqrt((1 - E**2) * A * B)
-            * ellipkinc(
-                pi / 2 - arcsin((B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1))),
-                k_r**2,
-            )
-        )
-        # derived by inverting equation 29
-        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(cos(theta0) / z1), k_theta**2)
-
         upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
         q_t0 = t0
-        q_r0 = -lambda_r0 * upsilon_r if dr0 > 0 else 2 * pi + lambda_r0 * upsilon_r
 
-        if dtheta0 < 0:
-            q_theta0 = lambda_theta0 * upsilon_theta + 3 * pi / 2
-        if (dtheta0 == 0) & (theta0 == pi / 2):
-            q_theta0 = 0  # special case for equatorial orbits
-        if dtheta0 >= 0:
-            q_theta0 = pi / 2 - lambda_theta0 * upsilon_theta
+        # check for turning points in r
+        if abs(r0 - r1) < tol:
+            q_r0 = 0
+        elif abs(r0 - r2) < tol:
+            q_r0 = pi
+        else:
+            # equation 47
+            A = sqrt((r2 - rho_r) ** 2 + rho_i**2)
+            B = sqrt((r1 - rho_r) ** 2 + rho_i**2)
+            k_r = sqrt(((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B))
+            # equation 49
+            lambda_r0 = (
+                -1
+                / sqrt((1 - E**2) * A * B)
+                * ellipkinc(
+                    pi / 2
+                    - arcsin((B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1))),
+                    k_r**2,
+                )
+            )
+            q_r0 = -lambda_r0 * upsilon_r if dr0 > 0 else 2 * pi + lambda_r0 * upsilon_r
+
+        theta_min = arccos(z1)
+        theta_max = pi - theta_min
+
+        # check for turning points in theta (always the case for equatorial orbits)
+        if abs(theta0 - theta_min) < tol:
+            q_theta0 = 0
+        elif abs(theta0 - theta_max) < tol:
+            q_theta0 = pi
+        else:
+            # derived by inverting equation 29
+            lambda_theta0 = 1 / z2 * ellipkinc(arcsin(cos(theta0) / z1), k_theta**2)
+            if dtheta0 < 0:
+                q_theta0 = lambda_theta0 * upsilon_theta + 3 * pi / 2
+            else:
+                q_theta0 = pi / 2 - lambda_theta0 * upsilon_theta
 
         q_phi0 = phi0
 
-- 
2.43.0


From d3dc544ffebe7647bca0dfde5ac7051be37525b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 07/13] fix: polar initial phase of retrograde Schwarzschild
 orbits had the wrong sign

The polar frequency is signed by L only when a != 0 or e = 0, and is positive
when it is passed in from mino_frequencies, while the Mino time was always
signed by L.
---
 kerrgeopy/initial_conditions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index ea71b96..8b3b43a 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -251,7 +251,9 @@ def stable_orbit_initial_phases(
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
         # Fujita and Hikida equation 37
-        lambda_theta0 = 1 / (L * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        lambda_theta0 = 1 / (abs(L) * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        # motion in theta is independent of the direction of the orbit
+        upsilon_theta = abs(upsilon_theta)
 
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
-- 
2.43.0


From b8e22eac55e81745cb99ca42c7489ec2e7a1b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 08/13] fix: time along equatorial plunges with four real
 radial roots was infinite

---
 kerrgeopy/frequencies.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 9ecc96d..1b2ee26 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -693,13 +693,12 @@ def _gamma_from_constants(
     r1, r2, r3, r4 = radial_roots
     z_minus, z_plus = polar_roots
 
-    e = (r1 - r2) / (r1 + r2)
+    E, L, Q = constants
+
     # marginally bound case
-    if e == 1:
+    if E == 1:
         return inf
 
-    E, L, Q = constants
-
     epsilon0 = a**2 * (1 - E**2) / L**2
     # simplified form of a**2*sqrt(z_plus/epsilon0)
     a2sqrt_zp_over_e0 = (
-- 
2.43.0


From 386563c31f13fc00cbf41ab8fe9e52679eafa487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 09/13] fix: angular momentum was NaN for prograde orbits with
 a turning point where the coefficient of L^2 vanishes

---
 kerrgeopy/constants.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 2b9d7bd..cca0bcc 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -341,14 +341,20 @@ def angular_momentum(a, p, e, x, E=None):
         r2 = p / (1 + e)
         f2, g2, h2, d2 = _coefficients(r2, a, x)
         # obtained by solving equation B.17 for L
-        return (-E * g2 + sign(x) * sqrt(-d2 * h2 + E**2 * (g2**2 + f2 * h2))) / h2
+        f, g, h, d = f2, g2, h2, d2
 
     # generic case
     else:
         r1 = p / (1 - e)
         f1, g1, h1, d1 = _coefficients(r1, a, x)
         # obtained by solving equation B.17 for L
-        return (-E * g1 + sign(x) * sqrt(-d1 * h1 + E**2 * (g1**2 + f1 * h1))) / h1
+        f, g, h, d = f1, g1, h1, d1
+
+    root = sqrt(-d * h + E**2 * (g**2 + f * h))
+    if x > 0:
+        # h vanishes for some prograde orbits inside the ergosphere (r = 2 in the equatorial case)
+        return (E**2 * f - d) / (E * g + root)
+    return -(E * g + root) / h
 
 
 def carter_constant(a, p, e, x, E=None, L=None):
-- 
2.43.0


From 0e990e5f0f00c9b74cb8697ae060f3214345fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 10/13] fix: orbital parameters of circular orbits came out
 complex when rounding split the double root

---
 kerrgeopy/constants.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index cca0bcc..a98ddc9 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -476,9 +476,8 @@ def apex_from_constants(a, E, L, Q):
             E**2 - 1,
         ]
     )
-    radial_roots = R.roots()
-    # numpy returns roots in increasing order
-    r4, r3, r2, r1 = radial_roots
+    # all roots are real, but rounding can turn the double root of a circular orbit into a complex pair
+    r4, r3, r2, r1 = np.sort(np.real(R.roots()))
 
     # polar polynomial written in terms of z = cos^2(theta)
     Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-- 
2.43.0


From 9599ab4c9c6c963940a79d4b8bb462fa7e63d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 11/13] fix: separatrix raised ValueError when rounding hid the
 sign change next to an equatorial or polar orbit

---
 kerrgeopy/constants.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index a98ddc9..734b074 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -642,13 +642,13 @@ def separatrix(a, e, x):
         )
         return p_equatorial_retrograde.root
 
-    if x > 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_equatorial_prograde.root, p_polar.root])
-        return p.root
-
-    if x < 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_polar.root, 12])
-        return p.root
+    bracket = [p_equatorial_prograde.root, p_polar.root] if x > 0 else [p_polar.root, 12]
+    try:
+        return root_scalar(_S, args=(a, e, x), bracket=bracket).root
+    except ValueError:
+        # close to an equatorial or polar orbit the root coincides with an end of the
+        # bracket to within rounding error and the sign change there can be lost
+        return min(bracket, key=lambda p: abs(_S(p, a, e, x)))
 
 
 def fast_separatrix(a, grid_spacing=0.01):
-- 
2.43.0


From 961bf998abe3251704120116b96e9642a47b89b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 12/13] fix: classify circular orbits as stable when roundoff
 makes their double root complex

---
 kerrgeopy/initial_conditions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 8b3b43a..e45b8ba 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -111,7 +111,14 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
         raise ValueError("Not a physical orbit")
 
     if len(complex_roots) == 2:
-        return False
+        # roundoff can split the double root of a stable circular orbit into a complex
+        # conjugate pair
+        r_c = complex_roots[0]
+        return bool(
+            (r_c.real > real_roots[-1])
+            & (abs(r_c.imag) < tol)
+            & (abs(r0 - r_c.real) < tol)
+        )
 
     r4, r3, r2, r1 = real_roots
     # r4 < r3 < [r2 < r_minus < r_plus < r1]
@@ -198,8 +205,8 @@ def stable_orbit_initial_phases(
                 E**2 - 1,
             ]
         )
-        radial_roots = R.roots()
-        # numpy returns roots in increasing order
+        # circular orbits have a double root which roundoff can make complex
+        radial_roots = np.sort(np.real(R.roots()))
         r4, r3, r2, r1 = radial_roots
         radial_roots = r1, r2, r3, r4
     else:
-- 
2.43.0


From aca855da00a168ac1d71c10ba6a589bb260ea43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:33 +0000
Subject: [PATCH 13/13] fix: animate with a tail length that is not an integer

---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 6e17f01..464a9f9 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -802,7 +802,7 @@ class Orbit:
                 pbar.update(1)
 
                 j = speed_multiplier * i
-                j0 = max(0, j - tail_length * point_density)
+                j0 = max(0, j - int(tail_length * point_density))
                 current_time = time[j]
 
                 # update camera angles
-- 
2.43.0

