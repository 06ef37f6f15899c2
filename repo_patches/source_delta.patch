From a751b98e4780b3b98c20fe9aec2c05d735d44da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:04 +0000
Subject: [PATCH 01/32] fix: PAD flags a candidate that leaves the bounds of
 any listed variable

Each variable in PAD_bounds overwrote the indicator of the previous one, so only
the last listed variable was checked (with the default bounds, a negative
density was never flagged).
---
 fvhoe/slope_limiting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index a13f12d..7de93b3 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -229,8 +229,8 @@ def detect_troubled_cells(
     PAD_indicator = np.zeros_like(NAD_violation_magnitude)
     if PAD_bounds is not None:
         for var, (lowr, uppr) in PAD_bounds.items():
-            PAD_indicator[...] = (
-                u_candidate_inner[_hs(var)] - lowr
+            PAD_indicator[...] = np.minimum(
+                PAD_indicator, u_candidate_inner[_hs(var)] - lowr
             )  # lower PAD difference
             PAD_indicator[...] = np.minimum(
                 PAD_indicator, uppr - u_candidate_inner[_hs(var)]
-- 
2.43.0


From 4458ea2825f6701df89b3604db211ea6f6a4d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:27 +0000
Subject: [PATCH 02/32] fix: interface troubles agree across a periodic seam

---
 fvhoe/slope_limiting.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index 7de93b3..2c2303c 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -295,14 +295,14 @@ def broadcast_to_troubled_interfaces(
         alloc_trouble[tuple(slices)] = trouble
         # apply periodic boundary conditions
         if periodic_x and xdim:
-            alloc_trouble[:2, 2:-2, 2:-2] = trouble[-2:, :, :]
-            alloc_trouble[-2:, 2:-2, 2:-2] = trouble[:2, :, :]
+            alloc_trouble[:2, :, :] = alloc_trouble[-4:-2, :, :]
+            alloc_trouble[-2:, :, :] = alloc_trouble[2:4, :, :]
         if periodic_y and ydim:
-            alloc_trouble[2:-2, :2, 2:-2] = trouble[:, -2:, :]
-            alloc_trouble[2:-2, -2:, 2:-2] = trouble[:, :2, :]
+            alloc_trouble[:, :2, :] = alloc_trouble[:, -4:-2, :]
+            alloc_trouble[:, -2:, :] = alloc_trouble[:, 2:4, :]
         if periodic_z and zdim:
-            alloc_trouble[2:-2, 2:-2, :2] = trouble[2:-2, 2:-2, -2:]
-            alloc_trouble[2:-2, 2:-2, -2:] = trouble[2:-2, 2:-2, :2]
+            alloc_trouble[:, :, :2] = alloc_trouble[:, :, -4:-2]
+            alloc_trouble[:, :, -2:] = alloc_trouble[:, :, 2:4]
     # broadcast troubled cells to interfaces
     if convex:
         # convex broadcast
@@ -378,6 +378,15 @@ def broadcast_to_troubled_interfaces(
             troubled_z_interfaces[:, :, :-1] = np.maximum(
                 troubled_z_interfaces[:, :, :-1], trouble
             )
+    # the first and last interface along a periodic direction are the same interface
+    for dim, periodic, interfaces in [
+        ("x", periodic_x, troubled_x_interfaces),
+        ("y", periodic_y, np.swapaxes(troubled_y_interfaces, 0, 1)),
+        ("z", periodic_z, np.swapaxes(troubled_z_interfaces, 0, 2)),
+    ]:
+        if periodic and dim in dims:
+            interfaces[0] = np.maximum(interfaces[0], interfaces[-1])
+            interfaces[-1] = interfaces[0]
     troubled_x_interfaces = troubled_x_interfaces[np.newaxis, ...]
     troubled_y_interfaces = troubled_y_interfaces[np.newaxis, ...]
     troubled_z_interfaces = troubled_z_interfaces[np.newaxis, ...]
-- 
2.43.0


From c884eb43e70ace4dc3f2befa126d9b81dc2c546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 03/32] fix: mean trouble of the first step counts only its own
 stages

---
 fvhoe/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 1d70828..16fc12f 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -397,7 +397,7 @@ class EulerSolver(ODE):
         self.SED = SED
         self.SED_tolerance = SED_tolerance
         self.convex = convex
-        self.trouble_counter = 1
+        self.trouble_counter = 0
 
     def _init_array_allocation(self):
         """
-- 
2.43.0


From 5f73286370ec8f7903a86f6ef650eabd050b937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 04/32] fix: logged troubles have one value per cell so they
 can be plotted

---
 fvhoe/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 16fc12f..31b6721 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -410,9 +410,9 @@ class EulerSolver(ODE):
         self.am.add("w", np.empty((nvars, nx, ny, nz)))
 
         # limiting
-        self.am.add("mean trouble", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean NAD mag", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean PAD mag", np.zeros((5, nx, ny, nz)))
+        self.am.add("mean trouble", np.zeros((nx, ny, nz)))
+        self.am.add("mean NAD mag", np.zeros((nx, ny, nz)))
+        self.am.add("mean PAD mag", np.zeros((nx, ny, nz)))
 
         # fluxes
         self.am.add("F", np.empty((nvars, nx + 1, ny, nz)))
-- 
2.43.0


From e57c63e721e9ac83613a3529abeffb5bec9bbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 05/32] fix: a solver with finite volume initial conditions can
 be saved

---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 31b6721..3d26d66 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -916,6 +916,7 @@ class EulerSolver(ODE):
             # skip functions, arrays, etc
             if (
                 (callable(v) and k != "am")
+                or v is NotImplemented
                 or isinstance(v, np.ndarray)
                 or isinstance(v, cp_ndarray)
                 or k
-- 
2.43.0


From 84026b9a618caa95257a3fe03a527ef003715b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 06/32] fix: double Mach reflection boundary passes the hydro
 state to its free part

---
 fvhoe/boundary_conditions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 2718ebf..8a2436e 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -379,7 +379,13 @@ class BoundaryCondition:
                     out_refl = out.copy()
 
                     # set free bc
-                    _set_free_bc(out_free, slab_thickness, axis=i + 1, pos=pos)
+                    _set_free_bc(
+                        hs=self.hydro_state,
+                        u=out_free,
+                        slab_thickness=slab_thickness,
+                        axis=i + 1,
+                        pos=pos,
+                    )
 
                     # set reflective bc
                     _set_symmetric_bc(
-- 
2.43.0


From 14d2b26ea6a2ca7b8650e701baf49916a2fa7f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 07/32] fix: a step shortened to reach a target time lands on
 it exactly

---
 fvhoe/ode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 69c9f5b..e03c69b 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -187,7 +187,9 @@ class ODE(ABC):
         dt, self.am("u")[...] = self.stepper(
             self.t, self.am("u"), target_time=target_time
         )
-        self.t += dt
+        # land on the target exactly if the step was shortened to reach it
+        hit = target_time is not None and dt == target_time - self.t
+        self.t = target_time if hit else self.t + dt
         self.timestamps.append(self.t)
         self.step_count += 1
         self.step_helper_function()
-- 
2.43.0


From 23b17d674f559784a13460eced077793baaad449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 08/32] fix: downbeats that were already reached do not turn
 time backwards

---
 fvhoe/ode.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index e03c69b..d5af77f 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -144,10 +144,9 @@ class ODE(ABC):
         elif isinstance(downbeats, np.ndarray):
             downbeats = downbeats.tolist()
 
-        downbeats = sorted(set([0] + downbeats + [T]))[
-            1:
-        ]  # get unique values and ignore 0
-        target_time = downbeats.pop(0) if exact else None
+        # get unique values which have yet to be reached
+        downbeats = sorted({time for time in [*downbeats, T] if time > self.t})
+        target_time = downbeats.pop(0) if exact and downbeats else None
 
         # initial snapshot
         self.snapshot()
-- 
2.43.0


From dfcfeb2ca0d9ac3758eee0b53d32cb0aaf9d4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 09/32] fix: a given number of iterations takes precedence over
 the end time

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index d5af77f..57fd9b0 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -111,7 +111,7 @@ class ODE(ABC):
             snapshot_dir (str) : directory to save snapshots. if None, does not save
             overwrite (bool) : overwrite the snapshot directory if it exists
         """
-        predetermined_step_count = T is None
+        predetermined_step_count = n is not None
 
         # if given n, perform a simple time evolution
         if predetermined_step_count:
-- 
2.43.0


From 3744c3e8b6ea2dddc9d17fe9e44e7a807a9004ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 10/32] fix: periodic slabs thicker than the domain wrap around
 instead of reading unset memory

---
 fvhoe/boundary_conditions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 8a2436e..780c4d0 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -99,12 +99,12 @@ def _set_periodic_bc(
         None, modifies u in place
     """
     st = slab_thickness
+    n = u.shape[axis] - 2 * st
     outer_l = hs(axis=axis, cut=(0, st))
-    inner_l = hs(axis=axis, cut=(st, 2 * st))
     outer_r = hs(axis=axis, cut=(-st, 0))
-    inner_r = hs(axis=axis, cut=(-2 * st, -st))
-    u[outer_l] = u[inner_r]
-    u[outer_r] = u[inner_l]
+    # wrap around as many times as it takes to fill the slabs
+    u[outer_l] = np.take(u, [st + i % n for i in range(-st, 0)], axis=axis)
+    u[outer_r] = np.take(u, [st + i % n for i in range(n, n + st)], axis=axis)
 
 
 def _set_symmetric_bc(
-- 
2.43.0


From 1f115b2a46118e0435dabe1c97c80d3251c9fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 11/32] fix: refuse to mirror a domain into a thicker slab
 instead of reading unset memory

---
 fvhoe/boundary_conditions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 780c4d0..cba91bc 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -128,6 +128,10 @@ def _set_symmetric_bc(
         None, modifies u in place
     """
     st = slab_thickness
+    if st > u.shape[axis] - 2 * st:
+        raise ValueError(
+            f"Cannot mirror {u.shape[axis] - 2 * st} cells into a slab of thickness {st}"
+        )
     flip = hs(axis=axis, cut=(0, 0), step=-1)
     if pos == "l":
         outer = hs(axis=axis, cut=(0, st))
-- 
2.43.0


From c3643e9cd095afb56b9ecff1a6cc1cecbfbdd986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 12/32] fix: refuse a one-sided periodic boundary instead of
 reading unset memory

---
 fvhoe/boundary_conditions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index cba91bc..54fe2bc 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -205,6 +205,12 @@ class BoundaryCondition:
             else:
                 setattr(self, f"{dim}{suffix}", (value, value))
 
+        # a boundary can only be periodic together with the opposite one
+        for dim in "xyz":
+            l_type, r_type = getattr(self, dim)
+            if (l_type == "periodic") != (r_type == "periodic"):
+                raise ValueError(f"Only one boundary is periodic along {dim}")
+
         # allocate dirichlet arrays
         for dim in "xyz":
             l_value, r_value = getattr(self, f"{dim}_value")
-- 
2.43.0


From 718301e02feed8945e3a8f26b557420a1e89299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 13/32] fix: refuse passive scalars named like a hydrodynamic
 variable

---
 fvhoe/hydro.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fvhoe/hydro.py b/fvhoe/hydro.py
index b63f9f2..8b8f624 100644
--- a/fvhoe/hydro.py
+++ b/fvhoe/hydro.py
@@ -52,6 +52,13 @@ class HydroState:
         if len(self.passive_scalars) != len(set(self.passive_scalars)):
             raise ValueError("Duplicate passive scalar names.")
 
+        # check that passive scalars do not shadow other variables
+        reserved = {*self.variable_map, "passive_scalars"}
+        if reserved.intersection(self.passive_scalars):
+            raise ValueError(
+                f"Reserved passive scalar names: {reserved.intersection(self.passive_scalars)}"
+            )
+
         # add passive scalars to variable map
         if self.passive_scalars:
             for i, scalar in enumerate(self.passive_scalars, start=5):
-- 
2.43.0


From 3d4e38de26518d4d6f15eb0db3b440011b4d05b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 14/32] fix: smooth extrema detector treats its left and right
 sides alike

---
 fvhoe/smooth_extrema_detection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fvhoe/smooth_extrema_detection.py b/fvhoe/smooth_extrema_detection.py
index 04c3df8..f00b775 100644
--- a/fvhoe/smooth_extrema_detection.py
+++ b/fvhoe/smooth_extrema_detection.py
@@ -33,9 +33,7 @@ def compute_1d_smooth_extrema_detector(
     # left detector
     vL = dU[slices[0]] - dU[slices[1]]
     alphaL = -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
-    alphaL[...] = (
-        -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
-    )
+    alphaL[...] = np.where(np.abs(dv) <= eps, 1, alphaL)
     alphaL[...] = np.where(alphaL < 1, alphaL, 1)
 
     # right detector
-- 
2.43.0


From 62e95b500cea002a9d145fdb9b37d66cb1ae07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 15/32] fix: second stage of ssprk2 is evaluated at the end of
 the step

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 57fd9b0..c454f93 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -262,7 +262,7 @@ class ODE(ABC):
             dt, k0 = self.f(t, u)
             dt = _hit_target(t=t, dt=dt, target=target_time)
             u1 = u + dt * k0
-            _, k1 = self.f(t, u1)
+            _, k1 = self.f(t + dt, u1)
             unext = 0.5 * u + 0.5 * (u1 + dt * k1)
             return dt, unext
 
-- 
2.43.0


From 242ff53890ea7e8019e36ca34a140ea2c9def73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 16/32] fix: time-dependent boundaries are evaluated at the
 time of each Runge-Kutta stage

---
 fvhoe/solver.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 3d26d66..ec306f9 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -424,19 +424,22 @@ class EulerSolver(ODE):
         compute the RHS of the Euler equations
         """
         self.f_evaluation_count += 1
-        return self.hydrodynamics(u)
+        return self.hydrodynamics(u, t=t)
 
-    def hydrodynamics(self, u: np.ndarray) -> Tuple[float, np.ndarray]:
+    def hydrodynamics(
+        self, u: np.ndarray, t: float = None
+    ) -> Tuple[float, np.ndarray]:
         """
         compute the Euler equation dynamics from cell-average conserved values u
         args:
             u (array_like) : fv averages of conservative variables. has shape (nvars, nx, ny, nz)
+            t (float) : time at which boundaries are evaluated. if None, self.t is used
         returns:
             dt, dudt (float, array_like) : time-step size, conservative variable dynamics
         """
         # high-order fluxes
         dt, (self.am("F")[...], self.am("G")[...], self.am("H")[...]) = (
-            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ")
+            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ", t=t)
         )
 
         if self.a_posteriori_slope_limiting:
@@ -447,6 +450,7 @@ class EulerSolver(ODE):
                 H=self.am("H"),
                 dt=dt,
                 force_trouble=self.force_trouble,
+                t=t,
             )
 
         # compute conservative variable dynamics
@@ -459,6 +463,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         slope_limiter: str = None,
         timer_prefix: str = "",
+        t: float = None,
     ) -> Tuple[float, Tuple[np.ndarray, np.ndarray, np.ndarray]]:
         """
         compute the Euler equation fluxes F, G, H with degree p polynomials. optionally apply slope limiting.
@@ -468,6 +473,7 @@ class EulerSolver(ODE):
             p (Tuple[int, int, int]) : polynomial interpolation degree (px, py, pz)
             limiter (str) : None, 'minmod', 'moncen'
             timer_prefix (str) : prefix for timer categories
+            t (float) : time at which boundaries are evaluated. if None, self.t is used
         returns:
             dt, (F, G, H) (tuple) : time-step size and numerical fluxes
                 dt (float) : time-step size
@@ -501,6 +507,7 @@ class EulerSolver(ODE):
                 gw if self.ydim else 0,
                 gw if self.zdim else 0,
             ),
+            t=t,
         )
 
         # time-step size
@@ -658,6 +665,7 @@ class EulerSolver(ODE):
         H: np.ndarray,
         dt: float,
         force_trouble: bool = False,
+        t: float = None,
     ) -> None:
         """
         revise fluxes to prevent oscillations
@@ -668,6 +676,7 @@ class EulerSolver(ODE):
             H (array_like) : z-fluxes. has shape (nvars, nx, ny, nz + 1)
             dt (float) : time-step size
             force_trouble (bool) : all cells are troubled
+            t (float) : time at which boundaries are evaluated. if None, self.t is used
         returns:
             None : revise fluxes in place
         """
@@ -683,8 +692,10 @@ class EulerSolver(ODE):
             3 if self.ydim else 0,
             3 if self.zdim else 0,
         )
-        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw)
-        w_star = self.interpolate_primitives_from_conservatives(ustar, p=self.p, gw=gw)
+        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw, t=t)
+        w_star = self.interpolate_primitives_from_conservatives(
+            ustar, p=self.p, gw=gw, t=t
+        )
 
         # detect troubled cells
         self.timer.start("(fallback scheme) troubled cell detection")
@@ -714,6 +725,7 @@ class EulerSolver(ODE):
                 p=(int(self.p[0] > 0), int(self.p[1] > 0), int(self.p[2] > 0)),
                 slope_limiter=self.slope_limiter,
                 timer_prefix="(fallback scheme) ",
+                t=t,
             )
 
             # get mask for troubled interfaces
@@ -756,6 +768,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         gw: Tuple[int, int, int] = (0, 0, 0),
         fv_average: bool = True,
+        t: float = None,
     ) -> np.ndarray:
         """
         interpolate finite volume primitives from finite volume conservatives
@@ -765,6 +778,7 @@ class EulerSolver(ODE):
             gw (Tuple[int, int, int]) : how many ghost zones w should have on each side (gx, gy, gz).
                 all values should be at least 0
             fv_average (bool) : whether u is cell-averaged or centroids
+            t (float) : time at which boundaries are evaluated. if None, self.t is used
         returns:
             w (array_like) : primitive variables as finite volume averages or centroids
         """
@@ -781,7 +795,7 @@ class EulerSolver(ODE):
             interp_cost_z = get_stencil_size(p[2])
         gw = (gw[0] + interp_cost_x, gw[1] + interp_cost_y, gw[2] + interp_cost_z)
         self.timer.start("boundary conditions")
-        u_bc = self.bc.apply(u, gw=gw, t=self.t)
+        u_bc = self.bc.apply(u, gw=gw, t=self.t if t is None else t)
         self.timer.stop("boundary conditions")
         u_cell_centers = interpolate_cell_centers(u_bc, p=p)
         w_cell_centers = compute_primitives(hs, u_cell_centers, gamma=self.gamma)
-- 
2.43.0


From 01a66c20f671a5d9dcc25695636a105b47712d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 17/32] fix: scripting module imports an initial condition that
 exists

---
 fvhoe/scripting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/scripting.py b/fvhoe/scripting.py
index 7630fd2..8d8e8d1 100644
--- a/fvhoe/scripting.py
+++ b/fvhoe/scripting.py
@@ -1,5 +1,5 @@
 from fvhoe.boundary_conditions import BoundaryCondition
-from fvhoe.initial_conditions import kelvin_helmholtz_2d
+from fvhoe.initial_conditions import InitialCondition, KelvinHelmholtz2D
 from fvhoe.solver import EulerSolver
 import matplotlib.pyplot as plt
 import numpy as np
@@ -10,7 +10,7 @@ def EulerSolver_wrapper(
     project_pref: str,
     snapshot_parent_dir: str,
     summary_parent_dir: str = None,
-    ic: callable = kelvin_helmholtz_2d,
+    ic: InitialCondition = KelvinHelmholtz2D(),
     bc: BoundaryCondition = BoundaryCondition(),
     T: float = 1.0,
     integrator: int = -1,
@@ -26,7 +26,7 @@ def EulerSolver_wrapper(
         snapshot_parent_dir (str) : snapshot parent directory
         summary_parent_dir (str) : summary parent directory. used for saving output from snapshot
             helper functions. if None, no snapshot_helper_function is used.
-        ic (callable) : valid EulerSolver initial condition function
+        ic (InitialCondition) : valid EulerSolver initial condition
         bc (BoundaryCondition) : valid EulerSolver boundary condition object
         T (float) : simulation time
         integrator (int) : integrator order. if -1, EulerSolver.run() is used.
-- 
2.43.0


From 12b78d234d55fe16821de88a0869b53724658a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 18/32] fix: plot_fields shows each of the six fields once

---
 fvhoe/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index ec306f9..d52f188 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -1000,7 +1000,7 @@ class EulerSolver(ODE):
             varnames = ["rho", "P", "v", "vx", "vy", "vz"]
             varlabels = [r"$\rho$", r"$P$", r"$v$", r"$v_x$", r"$v_y$", r"$v_z$"]
             for i, j in product([0, 1], [0, 1, 2]):
-                im = self.plot_2d_slice(axs[i, j], param=varnames[i + j], **kwargs)
+                im = self.plot_2d_slice(axs[i, j], param=varnames[3 * i + j], **kwargs)
                 im_ax = fig.add_axes(
                     [
                         axs[i, j].get_position().x0 + axs[i, j].get_position().width,
@@ -1009,7 +1009,7 @@ class EulerSolver(ODE):
                         axs[i, j].get_position().height,
                     ]
                 )
-                fig.colorbar(im, cax=im_ax, label=varlabels[i + j])
+                fig.colorbar(im, cax=im_ax, label=varlabels[3 * i + j])
             return fig, axs
         raise NotImplementedError(
             "Plotting is only implemented for 1D and 2D simulations."
-- 
2.43.0


From 293d8ee0a13381f5a1b4cc5d8419b1ef3f5e49dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 19/32] fix: snapshot times are restored together with the
 snapshots

---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index d52f188..fd8d6f6 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -896,6 +896,7 @@ class EulerSolver(ODE):
         if os.path.exists(self.snapshot_dir):
             with open(os.path.join(self.snapshot_dir, "arrs.pkl"), "rb") as f:
                 self.snapshots = pickle.load(f)
+            self.snapshot_times = [snapshot["t"] for snapshot in self.snapshots]
             print(f"Read from snapshot directory {self.snapshot_dir}")
             return True
         return False
-- 
2.43.0


From 9a5b073d18127edc213207eccdbeb5a27a47197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 20/32] fix: slices and circular averages accept a snapshot
 list

---
 fvhoe/visualization.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index f99747b..f8c146e 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -24,6 +24,16 @@ def get_snapshot_list(s) -> list:
         raise ValueError("s must be a snapshot list or a solver instance")
 
 
+def get_hydro_state(s) -> HydroState:
+    """
+    args:
+        s : snapshot list or solver
+    returns:
+        hydro state of the solver, or one without passive scalars for a snapshot list
+    """
+    return HydroState() if isinstance(s, list) else s.hydro_state
+
+
 def get_indices_from_coordinates(
     snapshots: list,
     t: float = None,
@@ -161,7 +171,7 @@ def plot_1d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = get_hydro_state(solver)
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -238,7 +248,7 @@ def plot_2d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = get_hydro_state(solver)
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -332,7 +342,7 @@ def sample_circular_average(
         bin_average (array_like) : average of param in each bin
         r_average (array_like) : average radius in each bin
     """
-    hs = solver.hydro_state
+    hs = get_hydro_state(solver)
     snapshots = get_snapshot_list(solver)
     n, _ = get_indices_from_coordinates(snapshots, t)
 
-- 
2.43.0


From f4af81ec92d559fe9fada5de704fe4ff9a304639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 21/32] fix: an invalid dirichlet value is reported as such
 without cupy

---
 fvhoe/boundary_conditions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 54fe2bc..589e123 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -45,8 +45,8 @@ def _set_dirichlet_bc(
 
     if callable(boundary_values):
         dirichlet_values = boundary_values(**kwargs)
-    elif isinstance(boundary_values, np.ndarray) or isinstance(
-        boundary_values, cp.ndarray
+    elif isinstance(boundary_values, np.ndarray) or (
+        CUPY_AVAILABLE and isinstance(boundary_values, cp.ndarray)
     ):
         dirichlet_values = np.ones_like(slab_view) * boundary_values.reshape(
             -1, 1, 1, 1
-- 
2.43.0


From 5d81a813f44f427747cafa6a1a469c82b2e51f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 22/32] fix: a solver can be built where git is not installed

---
 fvhoe/ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index c454f93..1417325 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -90,6 +90,8 @@ class ODE(ABC):
             }
         except subprocess.CalledProcessError as e:
             return {"error": f"An error occurred: {e.stderr.strip()}"}
+        except FileNotFoundError as e:
+            return {"error": f"An error occurred: {e}"}
 
     def integrate(
         self,
-- 
2.43.0


From 59a9611ef90c93c8966a2867fea1d0bd33b90135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:00 +0000
Subject: [PATCH 23/32] fix: write the parameter file for options given as
 numpy scalars

---
 fvhoe/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index fd8d6f6..a98395b 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -960,7 +960,8 @@ class EulerSolver(ODE):
         sorted_keys = sorted(attrs_to_save.keys(), key=lambda x: (x.lower(), x))
         attrs_to_save = {key: attrs_to_save[key] for key in sorted_keys}
         with open(os.path.join(snapshot_dir, "attrs.json"), "w") as f:
-            json.dump(attrs_to_save, f, indent=4)
+            # numpy scalars are written as the numbers they hold
+            json.dump(attrs_to_save, f, indent=4, default=lambda v: v.item())
 
         # generate timing report
         with open(os.path.join(snapshot_dir, "timing.txt"), "w") as f:
-- 
2.43.0


From 28213ffa245b0ce69a10f477a375f482c6949b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:00 +0000
Subject: [PATCH 24/32] fix: add no timer category if one of them already
 exists

---
 fvhoe/timer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fvhoe/timer.py b/fvhoe/timer.py
index 90de469..247f2ec 100644
--- a/fvhoe/timer.py
+++ b/fvhoe/timer.py
@@ -28,9 +28,11 @@ class Timer:
         """
         if isinstance(cat, str):
             cat = (cat,)
-        for c in cat:
-            if c in self.cats:
+        cat = tuple(cat)
+        for i, c in enumerate(cat):
+            if c in self.cats or c in cat[:i]:
                 raise ValueError(f"Category '{c}' already exists.")
+        for c in cat:
             self.cats = (*self.cats, c)
             self._start_time[c] = None
             self.cum_time[c] = 0.0
-- 
2.43.0


From 7b0c81d64e6bce7bd3061c962b4feccdd96bafcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:45 +0000
Subject: [PATCH 25/32] fix: radial bin averages are not truncated to integers
 when the radii are integers

---
 fvhoe/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index f8c146e..8653a43 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -359,8 +359,8 @@ def sample_circular_average(
         param_data = get_velocity_magnitude(snapshots[n]["w"])
     else:
         param_data = snapshots[n]["w"][hs(param)]
-    r_average = np.empty_like(radii[:-1])
-    bin_average = np.empty_like(radii[:-1])
+    r_average = np.empty(len(radii) - 1)
+    bin_average = np.empty(len(radii) - 1)
 
     # sample
     for i, (little_r, big_r) in enumerate(zip(radii[:-1], radii[1:])):
-- 
2.43.0


From bf36969285cdaa8c860b0b92eb1c00608f03311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:45 +0000
Subject: [PATCH 26/32] fix: overlay_trouble=True overlays all troubled cells,
 as documented

---
 fvhoe/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index 8653a43..4c93e7f 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -130,7 +130,7 @@ def plotting_trouble(snapshot: dict, mode: str, tol: float) -> np.ndarray:
         np.where(trouble > 0, 1, 0) == np.logical_or(NAD_mag > 0, PAD_mag > 0)
     ):
         raise ValueError("trouble must be consistent with NAD and PAD")
-    if mode == "all":
+    if mode == "all" or mode is True:
         out = np.where(PAD_mag > 0, 1, np.where(NAD_mag > tol, 1, 0))
     elif mode == "NAD":
         out = np.where(NAD_mag > tol, 1, 0)
-- 
2.43.0


From ec8849588e8694f2412ddb18eb0df6fe576f3882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:17 +0000
Subject: [PATCH 27/32] fix: write one summary plot per snapshot even if the
 times are close

---
 fvhoe/scripting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/scripting.py b/fvhoe/scripting.py
index 8d8e8d1..ebbbe2a 100644
--- a/fvhoe/scripting.py
+++ b/fvhoe/scripting.py
@@ -67,7 +67,7 @@ def EulerSolver_wrapper(
         if not os.path.exists(summary_dir):
             os.makedirs(summary_dir)
         plt.savefig(
-            os.path.join(summary_dir, f"t={s.t:.2f}.png"), dpi=300, bbox_inches="tight"
+            os.path.join(summary_dir, f"t={s.t}.png"), dpi=300, bbox_inches="tight"
         )
 
     # set up solver
-- 
2.43.0


From 28a4a5dfc98b455c956a9763f8be2e1ef1d47db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 28/32] fix: NAD_vars mask was a host array in device
 operations

---
 fvhoe/slope_limiting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index 2c2303c..62f7ee6 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -216,7 +216,7 @@ def detect_troubled_cells(
 
     # NAD across all variables
     if NAD_vars is not None:
-        NAD_var_filter = np.zeros((5, 1, 1, 1))
+        NAD_var_filter = np.zeros_like(NAD_trouble_per_var[:, :1, :1, :1])
         NAD_var_filter[_hs(NAD_vars)] = 1
         NAD_trouble_per_var = np.where(NAD_var_filter, NAD_trouble_per_var, 0)
     NAD_trouble = np.any(NAD_trouble_per_var, axis=0)
-- 
2.43.0


From d3a4edf8eccfea60b14dc05d6bfb44b5b4fe4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 29/32] fix: "ic" boundaries evaluated numpy initial conditions
 on device arrays

---
 fvhoe/boundary_conditions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 589e123..e33c603 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -345,12 +345,19 @@ class BoundaryCondition:
                     # set dirichlet boundaries
                     X, Y, Z = self.trim_slabs(gw=gw, axis=i, pos=pos)
                     dirichlet_kwargs = dict(x=X, y=Y, z=Z)
+                    boundary_values = getattr(self, f"{dim}_value")[j]
                     if bc == "dirichlet":
                         dirichlet_kwargs["t"] = t
+                    elif self.array_manager.using_cupy:
+                        # initial conditions are functions of numpy arrays
+                        ic_func = boundary_values
+                        boundary_values = lambda x, y, z: cp.asarray(
+                            ic_func(cp.asnumpy(x), cp.asnumpy(y), cp.asnumpy(z))
+                        )
                     _set_dirichlet_bc(
                         hs=self.hydro_state,
                         u=out,
-                        boundary_values=getattr(self, f"{dim}_value")[j],
+                        boundary_values=boundary_values,
                         slab_thickness=slab_thickness,
                         axis=i + 1,
                         pos=pos,
-- 
2.43.0


From a64a71d88ddab117b1a45f35f20348ab0b50ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:55 +0000
Subject: [PATCH 30/32] fix: an empty selection of variables (NAD_vars=())
 raised an error

---
 fvhoe/hydro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fvhoe/hydro.py b/fvhoe/hydro.py
index 8b8f624..d9ae7c4 100644
--- a/fvhoe/hydro.py
+++ b/fvhoe/hydro.py
@@ -114,7 +114,9 @@ class HydroState:
                 missing_vars = set(var) - set(self.variable_map.keys())
                 if missing_vars:
                     raise ValueError(f"Variables not found: {missing_vars}")
-                slices[0] = np.array(list(map(self.variable_map.get, var)))
+                slices[0] = np.array(
+                    list(map(self.variable_map.get, var)), dtype=int
+                )
             else:
                 raise ValueError(f"Invalid type for var: {type(var)}")
 
-- 
2.43.0


From 1a1cffc1abd7dafce810308f7ce09389434179b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:23 +0000
Subject: [PATCH 31/32] fix: minmod slopes vanished for differences below
 1e-16, so results depended on the units

---
 fvhoe/slope_limiting.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index 62f7ee6..6677425 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -61,13 +61,8 @@ def minmod(du_left: np.ndarray, du_right: np.ndarray) -> np.ndarray:
     returns:
         minmod limited difference
     """
-    ratio = du_right / np.where(
-        du_left > 0,
-        np.where(du_left > 1e-16, du_left, 1e-16),
-        np.where(du_left < -1e-16, du_left, -1e-16),
-    )
-    ratio = np.where(ratio < 1, ratio, 1)
-    return np.where(ratio > 0, ratio, 0) * du_left
+    slope = np.sign(du_left) * np.minimum(np.abs(du_left), np.abs(du_right))
+    return np.where(du_left * du_right >= 0, slope, 0)
 
 
 def moncen(du_left: np.ndarray, du_right: np.ndarray) -> np.ndarray:
-- 
2.43.0


From e44faa45254c27492b4e84d6469559b0f20c912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:47 +0000
Subject: [PATCH 32/32] fix: converting integer arrays truncated energies,
 velocities and fluxes

---
 fvhoe/hydro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/hydro.py b/fvhoe/hydro.py
index d9ae7c4..eabda29 100644
--- a/fvhoe/hydro.py
+++ b/fvhoe/hydro.py
@@ -161,7 +161,7 @@ def compute_primitives(hs: HydroState, u: np.ndarray, gamma: float) -> np.ndarra
     returns:
         w (array_like) : has variables names ["rho", "vx", "vy", "vz", "P", ...]
     """
-    w = np.empty_like(u)
+    w = np.empty_like(u, dtype=np.result_type(u.dtype, np.float32))
 
     # get slices
     rho = u[hs("rho")]
@@ -188,7 +188,7 @@ def compute_conservatives(hs: HydroState, w: np.ndarray, gamma: float) -> np.nda
     returns:
         u (array_like) : has variables names ["rho", "mx", "my", "mz", "E", ...]
     """
-    u = np.empty_like(w)
+    u = np.empty_like(w, dtype=np.result_type(w.dtype, np.float32))
 
     # get slices
     rho = w[hs("rho")]
@@ -240,7 +240,7 @@ def compute_fluxes(
     returns:
         out (array_like) : fluxes in specified direction, has variables names ["rho", "mx", "my", "mz", "E", ...]
     """
-    out = np.empty_like(w)
+    out = np.empty_like(w, dtype=np.result_type(w.dtype, u.dtype))
     v = w[hs("v" + dim)]  # velocity in dim-direction
 
     # assign values
-- 
2.43.0

