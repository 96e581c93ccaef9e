From d11e643f138e3d18e516c859b59e856f55e3486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 01/28] fix: keep a private copy of the polynomial orders

The optimizer aliased the caller's list (or the shared default argument), so a
later edit of that list changed or broke an existing optimizer.
---
 mpopt/mpopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c6a4bd6..c567f27 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -71,7 +71,9 @@ class mpopt:
 
         # if poly_orders is an integer, convert it to list with n_segments elements
         self.poly_orders = (
-            [poly_orders] * n_segments if isinstance(poly_orders, int) else poly_orders
+            [poly_orders] * n_segments
+            if isinstance(poly_orders, int)
+            else list(poly_orders)
         )
 
         self._ocp = copy.deepcopy(problem)
-- 
2.43.0


From 0a5c6cf886a0bb5a99b22af9445e1cc2d5f8152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 02/28] fix: keep a private copy of user supplied segment
 widths

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c567f27..37bb213 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -795,7 +795,7 @@ class mpopt:
 
         # By default, these paramers are of equal segment width
         if "nlp_sw_params" in mpopt_options:
-            self._nlp_sw_params = mpopt_options["nlp_sw_params"]
+            self._nlp_sw_params = copy.copy(mpopt_options["nlp_sw_params"])
         else:
             self._nlp_sw_params = self.get_segment_width_parameters(initial_solution)
 
-- 
2.43.0


From 262ddaf6174349fc300a36d12b8f90e62f7e5f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 03/28] fix: do not modify option dictionaries in
 mpopt_h_adaptive.solve

The defaults were written into the caller's dictionaries and into the shared
default arguments, so they leaked into other solves and other optimizers, and
an ipopt-only option was forced on every other NLP solver (which then failed).
create_solver already sets ipopt.print_level to 0 by default.
---
 mpopt/mpopt.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 37bb213..213845e 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2368,13 +2368,13 @@ class mpopt_h_adaptive(mpopt):
 
         start_time = time.monotonic()
         if (not self._nlpsolver_initialized) or (reinitialize_nlp):
-            if "ipopt.print_level" not in nlp_solver_options:
-                nlp_solver_options["ipopt.print_level"] = 0
             self.create_solver(solver=solver, options=nlp_solver_options)
 
-        if mpopt_options == {}:
-            mpopt_options["method"] = self._DEFAULT_METHOD
-            mpopt_options["sub_method"] = self._DEFAULT_SUB_METHOD
+        if not mpopt_options:
+            mpopt_options = {
+                "method": self._DEFAULT_METHOD,
+                "sub_method": self._DEFAULT_SUB_METHOD,
+            }
 
         self.iter_count, self.iter_info = 0, dict()
         sw_old = []
-- 
2.43.0


From e6cae7dfd55847aa286c0848a9b460a20f47a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 04/28] fix: order the initial guess of several controls like
 the NLP variables

The control guess was laid out node by node while the NLP variables are laid
out control by control, so the guess was scrambled for two or more controls.
---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 213845e..3431c02 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -687,7 +687,7 @@ class mpopt:
                         self._Npoints,
                     )
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
 
@@ -3026,7 +3026,7 @@ class mpopt_adaptive(mpopt):
                         self._Npoints,
                     )
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
         z0[5] = [1.0 / self.n_segments] * self.n_segments
-- 
2.43.0


From c255b6c5112667ba4c8a106090849db15305fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 05/28] fix: account for segment widths in the control slope
 continuity

The slopes on both sides of a segment boundary were compared with respect to
the normalized segment coordinate, so the slope in time jumped whenever the
widths of neighbouring segments differ.
---
 mpopt/mpopt.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 3431c02..21de781 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -402,12 +402,16 @@ class mpopt:
         comp_interpolation_D = self.collocation.get_composite_interpolation_Dmatrix_at(
             taus_end, self.poly_orders, order=1
         )
-        _compD = comp_interpolation_D[1:-1][::2] - comp_interpolation_D[2:-1][::2]
-
-        _compDU = (
-            ca.kron(ca.DM.eye(self._ocp.nu), _compD) if self._ocp.nu > 1 else _compD
+        # Slope w.r.t time is inversely proportional to the segment width
+        widths = self.n_segments * self.seg_widths[:, phase]
+        slope_left = ca.mtimes(comp_interpolation_D[1:-1:2], self.U[phase])
+        slope_right = ca.mtimes(comp_interpolation_D[2:-1:2], self.U[phase])
+        dU = ca.vertcat(
+            *[
+                widths[1:] * slope_left[:, i] - widths[:-1] * slope_right[:, i]
+                for i in range(self._ocp.nu)
+            ]
         )
-        dU = ca.mtimes(_compDU, self.U[phase][:])
         nDu = dU.size1()
         dUmin = [0] * (nDu)
         dUmax = [0] * (nDu)
-- 
2.43.0


From f97a4d10237cdc0c7eaa50537b3d8421d4f0ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 06/28] fix: honour du_continuity in mpopt_adaptive

The requested control slope continuity was silently ignored when the segment
widths are optimization variables.
---
 mpopt/mpopt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 21de781..463343f 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3165,6 +3165,11 @@ class mpopt_adaptive(mpopt):
             mayer_term,
         ) = self.get_nlp_constraints_for_terminal_contraints(phase)
         (DU, DUmin, DUmax) = self.get_nlp_constraints_for_control_input_slope(phase)
+        (
+            dU,
+            dUmin,
+            dUmax,
+        ) = self.get_nlp_constrains_for_control_slope_continuity_across_segments(phase)
 
         # Constraints related to segment widths
         (SW, SWmin, SWmax) = self.get_nlp_constrains_for_segment_widths(phase)
@@ -3173,9 +3178,9 @@ class mpopt_adaptive(mpopt):
         J = mayer_term + ca.mtimes(self._compW, ca.vertcat(*q))
 
         # Merge constraint vectors into sigle constraint vector
-        G = ca.vertcat(*[F, C, DU, TC, SW])
-        Gmin = np.concatenate([Fmin, Cmin, DUmin, TCmin, SWmin])
-        Gmax = np.concatenate([Fmax, Cmax, DUmax, TCmax, SWmax])
+        G = ca.vertcat(*[F, C, DU, dU, TC, SW])
+        Gmin = np.concatenate([Fmin, Cmin, DUmin, dUmin, TCmin, SWmin])
+        Gmax = np.concatenate([Fmax, Cmax, DUmax, dUmax, TCmax, SWmax])
 
         return (G, Gmin, Gmax, J)
 
-- 
2.43.0


From bd00c4aec51af0596fdf878d108e46a75e8e3c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 07/28] fix: use the residual grid selected for each phase

get_dynamics_residuals used the grid type of the first phase for all phases,
and get_state_second_derivative_single_phase ignored its grid_type argument.
---
 mpopt/mpopt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 463343f..3ccbc64 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1316,7 +1316,7 @@ class mpopt:
             if grid_type is None:
                 grid_type = self.grid_type[phase]
             target_nodes = self.get_residual_grid_taus(
-                phase=phase, grid_type=self.grid_type[phase]
+                phase=phase, grid_type=grid_type
             )
         else:
             target_nodes = nodes
@@ -1392,8 +1392,6 @@ class mpopt:
         residuals, ti = [None] * self._ocp.n_phases, [None] * self._ocp.n_phases
         for phase in range(self._ocp.n_phases):
             if nodes is None:
-                if grid_type is None:
-                    grid_type = self.grid_type[phase]
                 target_nodes = self.get_residual_grid_taus(phase, grid_type=grid_type)
             else:
                 target_nodes = nodes[phase]
-- 
2.43.0


From 960c5a5f2e53d042cda3a7f9f11da6eadd5c0f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 08/28] fix: unscale algebraic parameters element by element in
 get_trajectories

Dividing the column of parameters by the row of scales returned a matrix of
all combinations for two or more parameters.
---
 mpopt/mpopt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 3ccbc64..a80cafa 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1666,7 +1666,12 @@ class post_process:
             scale_u = self.options["scale_u"] if "scale_u" in self.options else 1.0
             scale_a = self.options["scale_a"] if "scale_a" in self.options else 1.0
 
-            return (x_opt / scale_x, u_opt / scale_u, t_opt, a_opt / scale_a)
+            return (
+                x_opt / scale_x,
+                u_opt / scale_u,
+                t_opt,
+                a_opt / np.reshape(scale_a, (-1, 1)),
+            )
 
         return (x_opt, u_opt, t_opt, a_opt)
 
-- 
2.43.0


From 2f93cf90d6add36f5582df03663761564478511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 09/28] fix: keep state residuals when dynamics residuals are
 not requested

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index a80cafa..f01b74d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -927,7 +927,7 @@ class mpopt:
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not resid_value:
             resid_value = None
 
         r_time = time.monotonic()
@@ -3329,7 +3329,7 @@ class mpopt_adaptive(mpopt):
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not resid_value:
             resid_value = None
 
         r_time = time.monotonic()
-- 
2.43.0


From d8ce32b51eb3166998c68e088482ce7ba98e2b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 10/28] fix: count the first node of every segment in the
 integral of running costs

The quadrature weight of the first node of all segments but the first one was
dropped, so the objective was wrong for schemes in which it is not zero (LGL,
CGL, and LGR of order 1) and more than one segment.
---
 mpopt/mpopt.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index f01b74d..9f93b6d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -418,6 +418,32 @@ class mpopt:
 
         return (dU, dUmin, dUmax)
 
+    def get_integral_of_running_costs(self, q: List, phase: int = 0):
+        """Integrate the discretized running costs over all the segments of a phase
+
+        args:
+            :q: List of discretized running costs at each collocation node
+            :phase: index of the corresponding phase
+
+        returns:
+            :J: Integral of the running cost
+        """
+        J = ca.mtimes(self._compW, ca.vertcat(*q))
+        # The node shared by two segments belongs to the first one in _compW and q.
+        # Add its contribution as the starting node of the second one.
+        index = self.poly_orders[0]
+        for seg in range(1, self.n_segments):
+            end = index + self.poly_orders[seg]
+            # Quadrature weights of a segment add up to its normalized length
+            w_start = (self.tau1 - self.tau0) - ca.sum2(
+                self._compW[index + 1 : end + 1]
+            )
+            h_ratio = self.seg_widths[seg, phase] / self.seg_widths[seg - 1, phase]
+            J += w_start * h_ratio * q[index]
+            index = end
+
+        return J
+
     def discretize_phase(self, phase: int) -> Tuple:
         """Discretize single phase of the Optimal Control Problem
 
@@ -458,7 +484,7 @@ class mpopt:
         ) = self.get_nlp_constrains_for_control_slope_continuity_across_segments(phase)
 
         # Add running cost to the mayer term
-        J = mayer_term + ca.mtimes(self._compW, ca.vertcat(*q))
+        J = mayer_term + self.get_integral_of_running_costs(q, phase)
 
         # Merge constraint vectors into sigle constraint vector
         G = ca.vertcat(*[F, C, DU, mU, dU, TC])
@@ -3178,7 +3204,7 @@ class mpopt_adaptive(mpopt):
         (SW, SWmin, SWmax) = self.get_nlp_constrains_for_segment_widths(phase)
 
         # Add running cost to the mayer term
-        J = mayer_term + ca.mtimes(self._compW, ca.vertcat(*q))
+        J = mayer_term + self.get_integral_of_running_costs(q, phase)
 
         # Merge constraint vectors into sigle constraint vector
         G = ca.vertcat(*[F, C, DU, dU, TC, SW])
-- 
2.43.0


From 9a488500376b38f63d557897a2fb4df28297855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 11/28] fix: accept partial initial solutions in
 mpopt_h_adaptive.solve

The documented key "x0" (or multipliers only) raised KeyError, as did an
acceptable starting solution without an objective value.
---
 mpopt/mpopt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 9f93b6d..65edd10 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2498,7 +2498,8 @@ class mpopt_h_adaptive(mpopt):
         print(f"H-Adaptive Iter., max_residual : {self.iter_count}, {max_error}")
 
         if not self._MUTE_:
-            print(" Optimal cost (J): ", solution["f"], "\n")
+            if "f" in solution:
+                print(" Optimal cost (J): ", solution["f"], "\n")
             print(f" Solved in {round((end_time - start_time)*1e3, 3)} ms\n")
             # print(f"\n *********** H-adaptive End ********** \n")
 
@@ -2528,7 +2529,7 @@ class mpopt_h_adaptive(mpopt):
         if self.n_segments == 1:
             return default_widths, max_error
 
-        if solution is None:
+        if solution is None or "x" not in solution:
             # Warning, Solution not found, returning default segment widths
             return default_widths, max_error
 
-- 
2.43.0


From 0388c8e8727cac70b0c467df68ce098766240c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 12/28] fix: keep segment widths valid for any solution in
 mpopt_h_adaptive

NaN residuals were reported as solved to acceptable tolerance, residuals that
vanish at the end of a phase gave widths that do not add up to one, and
non-finite residuals or a phase of zero length gave NaN widths.
---
 mpopt/mpopt.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 65edd10..fd280da 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2594,14 +2594,14 @@ class mpopt_h_adaptive(mpopt):
             )
         max_error = 0
         for phase in range(self._ocp.n_phases):
-            max_residual = max(
+            max_residual = np.max(
                 [
                     abs(np.array(err)).max() if err is not None else 0
                     for err in residuals[phase]
                 ]
             )
-            if max_residual > max_error:
-                max_error = max_residual
+            # Propagates NaN, which never meets the tolerance
+            max_error = np.maximum(max_error, max_residual)
 
             segment_widths_old = self._nlp_sw_params[
                 self.n_segments * phase : self.n_segments * (phase + 1)
@@ -2614,6 +2614,11 @@ class mpopt_h_adaptive(mpopt):
                 )
                 continue
 
+            if not np.isfinite(max_residual):
+                # Can not decide on refinement
+                segment_widths[phase] = segment_widths_old
+                continue
+
             segment_widths[phase] = self.refine_segment_widths_based_on_residuals(
                 residuals[phase],
                 segment_widths_old,
@@ -2624,6 +2629,9 @@ class mpopt_h_adaptive(mpopt):
                 segment_widths[phase] = 0.4 * np.array(
                     segment_widths[phase]
                 ) + 0.6 * np.array(segment_widths_old)
+            if not np.isfinite(segment_widths[phase]).all():
+                # Residuals too large to be integrated
+                segment_widths[phase] = segment_widths_old
 
         return np.concatenate(segment_widths), max_error
 
@@ -2677,7 +2685,9 @@ class mpopt_h_adaptive(mpopt):
         cumulative_area = np.append(0, np.cumsum(areas))
         cumulative_area = cumulative_area / cumulative_area[-1]
         seg_widths_cumulative = [None] * n_segments
-        for i in range(n_segments):
+        # Last segment always ends at the end of the phase
+        seg_widths_cumulative[-1] = 1.0
+        for i in range(n_segments - 1):
             ind_j = (cumulative_area >= (i + 1) / n_segments).argmax()
             seg_widths_cumulative[i] = (
                 ind_j
@@ -2776,14 +2786,14 @@ class mpopt_h_adaptive(mpopt):
 
         segment_widths = [None] * self._ocp.n_phases
         for phase in range(self._ocp.n_phases):
-            max_residual = max(
+            max_residual = np.max(
                 [
                     np.abs(np.array(err)).max() if err is not None else 0
                     for err in residuals[phase]
                 ]
             )
-            if max_residual > max_error:
-                max_error = max_residual
+            # Propagates NaN, which never meets the tolerance
+            max_error = np.maximum(max_error, max_residual)
 
             segment_widths_old = self._nlp_sw_params[
                 self.n_segments * phase : self.n_segments * (phase + 1)
@@ -2821,7 +2831,11 @@ class mpopt_h_adaptive(mpopt):
             #     tics=["o"] * 15,
             # )
 
-            if len(time_at_max_slope) == 0:
+            if (
+                (len(time_at_max_slope) == 0)
+                or (not np.isfinite(max_residual))
+                or (not 0 < tf[0] - t0[0] < np.inf)
+            ):
                 segment_widths[phase] = segment_widths_old
             else:
                 segment_widths[phase] = self.compute_segment_widths_at_times(
-- 
2.43.0


From 93bda817107beb6f468d0640aa19c39c764c7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 13/28] fix: leave the optimizer unchanged when a solve fails

When a user function, the NLP solver or an interrupt stopped a call part-way,
the optimizer was left with a mixture of new and old symbols, bounds, widths
and solver, so earlier solutions could not be post-processed any more and
later calls failed or used the wrong segment widths.
---
 mpopt/mpopt.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index fd280da..83562ac 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -24,10 +24,27 @@ import itertools
 import casadi as ca  # type: ignore
 import matplotlib.pyplot as plt
 import copy
+import functools
 import math
 import time
 
 
+def _restore_on_failure(method):
+    """Decorator: leave the optimizer as it was when the method fails"""
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = dict(self.__dict__)
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    return wrapper
+
+
 class mpopt:
     """Multiphase Optimal Control Problem Solver
 
@@ -603,6 +620,7 @@ class mpopt:
 
         return (Z, Zmin, Zmax)
 
+    @_restore_on_failure
     def create_nlp(self) -> Tuple:
         """Create Nonlinear Programming problem for the given OCP
 
@@ -754,6 +772,7 @@ class mpopt:
         """
         return [1.0 / self.n_segments] * (self.n_segments * self._ocp.n_phases)
 
+    @_restore_on_failure
     def create_solver(self, solver: str = "ipopt", options: Dict = {}) -> None:
         """Create NLP solver
 
@@ -789,6 +808,7 @@ class mpopt:
         self.nlp_solver = ca.nlpsol("solver", solver, nlp_problem, default_options)
         self._nlpsolver_initialized = True
 
+    @_restore_on_failure
     def solve(
         self,
         initial_solution: Dict = None,
@@ -2363,6 +2383,7 @@ class mpopt_h_adaptive(mpopt):
         self.fig, self.axs = None, None
         self.plot_residual_evolution = False
 
+    @_restore_on_failure
     def solve(
         self,
         initial_solution: Dict = None,
@@ -3228,6 +3249,7 @@ class mpopt_adaptive(mpopt):
 
         return (G, Gmin, Gmax, J)
 
+    @_restore_on_failure
     def create_solver(self, solver: str = "ipopt", options: Dict = {}) -> None:
         """Create NLP solver
 
@@ -3261,6 +3283,7 @@ class mpopt_adaptive(mpopt):
         self.nlp_solver = ca.nlpsol("solver", solver, nlp_problem, default_options)
         self._nlpsolver_initialized = True
 
+    @_restore_on_failure
     def solve(
         self,
         initial_solution: Dict = None,
@@ -4474,6 +4497,7 @@ class mpopt_ph_adaptive(mpopt):
 
         return max_r_phases
 
+    @_restore_on_failure
     def solve_ph(self, max_iter=1, solve_dict: Dict = {}):
         """Solve OCP using adaptive ph method
 
-- 
2.43.0


From f0319a450547472028daefa391ced2a61f694808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 14/28] fix: make mpopt_ph_adaptive.solve_ph work

It always raised UnboundLocalError (grid_type). Beyond that the refined segment
widths were passed in a way solve() ignores and written into the shared default
argument, the mesh of several phases was taken from the last phase only,
refinement stopped when one of the phases was accurate, and the configured
maximum number of segments was not respected.
---
 mpopt/mpopt.py | 49 +++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 83562ac..442279a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4515,18 +4515,20 @@ class mpopt_ph_adaptive(mpopt):
                 for p in poly_orders
             ]
 
-        if grid_type is None:
-            grid_type = self.grid_type[0]
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
+        solve_dict = dict(solve_dict)  # Do not modify options of the caller
         nlp_sw_params = []  # Initialize
         poly_orders = []
         for iter_no in range(max_iter):
             if iter_no > 0:
                 # Update Mesh for the next iteration
                 self._nlp_sw_params = np.hstack(nlp_sw_params)
-                solve_dict["nlp_sw_params"] = self._nlp_sw_params
-                self.poly_orders = np.hstack(poly_orders)
-                self.n_segments = self._nlp_sw_params.shape[0]
+                solve_dict["mpopt_options"] = dict(
+                    solve_dict.get("mpopt_options", {}),
+                    nlp_sw_params=self._nlp_sw_params,
+                )
+                self.poly_orders = poly_orders
+                self.n_segments = len(poly_orders)
 
             # ************************** Sparse solution ********************
             # Step 1 : Solve the problem on initial mesh (Sparse for reference)
@@ -4556,12 +4558,14 @@ class mpopt_ph_adaptive(mpopt):
                 status = max_seg_residual > self.max_residual
                 if status.any():
                     # This phase needs refinement, increase the order of the polynomial by 3 for next iteration
+                    # (The orders are common to all the phases)
                     poly_orders = [
-                        self.poly_orders[i] + 3 * int(st) for i, st in enumerate(status)
+                        max(poly_orders[i], self.poly_orders[i] + 3 * int(st))
+                        for i, st in enumerate(status)
                     ]
                     refine_phase[i_phase] = True
 
-            if not np.array(refine_phase).all():
+            if not np.array(refine_phase).any():
                 return solution
 
             # Compute reduction in mesh size
@@ -4626,17 +4630,13 @@ class mpopt_ph_adaptive(mpopt):
                     ]
                     refine_phase[i_phase] = True
 
-            if not np.array(refine_phase).all():
+            if not np.array(refine_phase).any():
                 return solution_new
 
-            abs_max_residual = 0
             # Find non-smooth segments where residual is more than the required tolerence
+            split_segment = [False] * self.n_segments
             for i_phase, max_r_phase in enumerate(max_residual_new):
-                poly_orders = []
-                nlp_sw_params = []
                 max_seg_residual = np.array(max_r_phase)[:, 1].max(axis=1)
-                if max_seg_residual.max() > abs_max_residual:
-                    abs_max_residual = max_seg_residual.max()
                 status = max_seg_residual > self.max_residual
                 for i_seg, st in enumerate(status):
                     if (
@@ -4645,12 +4645,7 @@ class mpopt_ph_adaptive(mpopt):
                             dd_max_phase[i_phase][i_seg] > self.non_smooth_threshold
                         ).any()
                     ):
-                        # Split i_seg in additional segments based on desired residual
-                        new_segments = 2
-                        nlp_sw_params.append(
-                            [self._nlp_sw_params[i_seg] / new_segments] * new_segments
-                        )
-                        poly_orders.append([self.poly_orders[i_seg]] * new_segments)
+                        split_segment[i_seg] = True
 
                         # max_residual_seg = residual_r[phase][seg].max()
                         # max_residual_seg_sparse = residual_rs[phase][seg].max()
@@ -4666,10 +4661,16 @@ class mpopt_ph_adaptive(mpopt):
                         # )
                         # n_splits = min(np.ceil(1 / seg_width_new), n_splits_max)
                         # seg_refine_phase[phase][seg] = n_splits
-                    else:
-                        # The solution is smooth and the residual is higher than the required tolerance.
-                        # Increase the order of polynomial
-                        poly_orders.append(self.poly_orders[i_seg])
-                        nlp_sw_params.append(self._nlp_sw_params[i_seg])
+            # Split the segments (common to all the phases) as long as the limit allows
+            poly_orders = []
+            nlp_sw_params = [[] for _ in range(self._ocp.n_phases)]
+            n_free = self.max_segments - self.n_segments
+            for i_seg, split in enumerate(split_segment):
+                new_segments = 2 if split and n_free > 0 else 1
+                n_free -= new_segments - 1
+                poly_orders += [self.poly_orders[i_seg]] * new_segments
+                for i_phase in range(self._ocp.n_phases):
+                    width = self._nlp_sw_params[i_phase * self.n_segments + i_seg]
+                    nlp_sw_params[i_phase] += [width / new_segments] * new_segments
 
         return solution_new
-- 
2.43.0


From 181dae027b28e0e65e3891f7c4cc29fdca2dd597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 15/28] fix: integrate the symbolic basis polynomials exactly

The ODE integrator used for the quadrature weights is only accurate to about
1e-5 and fails when the end of the interval is (close to) its start, so state
residuals could not be computed on some grids.
---
 mpopt/mpopt.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 442279a..cb000d9 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3942,17 +3942,16 @@ class Collocation:
 
         n = len(self.roots[key])
         quad_weights = ca.DM.zeros(n)
+        # Gauss-Legendre quadrature, exact for polynomials of degree (n - 1)
+        gauss_nodes, gauss_weights = np.polynomial.legendre.leggauss((n + 1) // 2)
+        half_length = 0.5 * (tau1 - tau0)
         for i in range(n):
             if self.D_MATRIX_METHOD == "symbolic":
-                pint = ca.integrator(
-                    "pint",
-                    "idas",
-                    {"x": ca.SX.sym("x"), "t": self.TVAR, "ode": self.polys[key][i]},
-                    {"t0": tau0, "tf": tau1},
+                poly = ca.Function("p", [self.TVAR], [self.polys[key][i]])
+                quad_weights[i] = half_length * sum(
+                    weight * poly(tau0 + half_length * (1 + node))
+                    for node, weight in zip(gauss_nodes, gauss_weights)
                 )
-                quad_weights[i] = pint(x0=0)[
-                    "xf"
-                ]  # By default integrator evaluates the final value at tf
             else:
                 pint = np.polyint(self.polys[key][i])
                 quad_weights[i] = pint(tau1) - pint(tau0)
-- 
2.43.0


From 05d57e740ab19e5504010d16fc6740c8889107d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 16/28] fix: stack mid-point constraints as columns for
 single-node segments

---
 mpopt/mpopt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index cb000d9..938cb26 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -382,7 +382,7 @@ class mpopt:
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            mU.append(ui[:])
+            mU.append(ca.vec(ui))
             n_mid = ui.size1()
             mUmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             mUmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3138,7 +3138,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            sw.append(ui[:])
+            sw.append(ca.vec(ui))
             n_mid = ui.size1()
             swmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             swmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3147,7 +3147,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbx[phase] > -np.inf).any() or (
             self._ocp.ubx[phase] < np.inf
         ).any():
-            sw.append(xi[:])
+            sw.append(ca.vec(xi))
             n_mid = xi.size1()
             swmin.append(np.repeat(self._ocp.lbx[phase] * self._ocp.scale_x, n_mid))
             swmax.append(np.repeat(self._ocp.ubx[phase] * self._ocp.scale_x, n_mid))
@@ -3187,9 +3187,8 @@ class mpopt_adaptive(mpopt):
                 start, end = sum(n_taus[:seg]), sum(n_taus[: (seg + 1)])
                 if start == end:
                     continue
-                residual_phase[seg] = (
-                    self.seg_widths[seg, phase]
-                    * (Dxi[start:end, :] - ca.vertcat(*f))[:]
+                residual_phase[seg] = self.seg_widths[seg, phase] * ca.vec(
+                    Dxi[start:end, :] - ca.vertcat(*f)
                 )
 
             residuals = ca.vertcat(*residual_phase)
-- 
2.43.0


From a70ff0f3b62aa23d800db50c8f475b7c0fa8e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 17/28] fix: relative residuals above one are not an error

---
 mpopt/mpopt.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 938cb26..fd11c81 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1466,7 +1466,6 @@ class mpopt:
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
-                        assert abs(residuals[phase][seg]).max() <= 1
 
         if plot:
             fig, axs = post_process.plot_residuals(
-- 
2.43.0


From dfa85d040c96b7d5a057dd130e87492664810509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 18/28] fix: evaluate the symbolic quadrature in one call

---
 mpopt/mpopt.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index fd11c81..09356f7 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3946,10 +3946,8 @@ class Collocation:
         for i in range(n):
             if self.D_MATRIX_METHOD == "symbolic":
                 poly = ca.Function("p", [self.TVAR], [self.polys[key][i]])
-                quad_weights[i] = half_length * sum(
-                    weight * poly(tau0 + half_length * (1 + node))
-                    for node, weight in zip(gauss_nodes, gauss_weights)
-                )
+                values = poly(ca.DM(tau0 + half_length * (1 + gauss_nodes)).T)
+                quad_weights[i] = half_length * ca.mtimes(values, gauss_weights)
             else:
                 pint = np.polyint(self.polys[key][i])
                 quad_weights[i] = pint(tau1) - pint(tau0)
-- 
2.43.0


From 921fa9fb89960d6908245a383f21f59f6ebb0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 19/28] fix: accept multi-phase problems without phase links

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 09356f7..ffc779f 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -521,7 +521,7 @@ class mpopt:
                     phase linking constraints, discontinuities across
                     states, controls and time variables.
         """
-        if self._ocp.n_phases < 2:
+        if self._ocp.n_phases < 2 or len(self._ocp.phase_links) == 0:
             return ([], [], [])
         if not self._variables_created:
             self.create_variables()
-- 
2.43.0


From 149615d57bc8f70db89d8bdb2e47226cfe6eb1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 20/28] fix: plot residuals of segments with different numbers
 of points

---
 mpopt/mpopt.py | 65 ++++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 37 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index ffc779f..763f877 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1973,30 +1973,13 @@ class post_process:
         if residuals:
             if self.residuals is not None:
                 if ("t_x" in self.residuals) and ("t_dx" in self.residuals):
-                    y_data = [
-                        r_seg
-                        for r_p in self.residuals["t_x"][1]
-                        for r_seg in r_p
-                        if r_seg is not None
-                    ]
-
-                    x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
-                    y_data = np.concatenate(y_data)
+                    x_data, y_data = self.get_residual_series(self.residuals["t_x"])
 
                     ax2 = plt.subplot(2, 2, 2)
-                    dims = y_data.shape[1]
                     self.plot_curve(ax2, y_data, x_data, "x", "States error", tics=tics)
 
                     ax3 = plt.subplot(2, 2, 4)
-                    y_data = [
-                        r_seg
-                        for r_p in self.residuals["t_dx"][1]
-                        for r_seg in r_p
-                        if r_seg is not None
-                    ]
-
-                    x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
-                    y_data = np.concatenate(y_data)
+                    x_data, y_data = self.get_residual_series(self.residuals["t_dx"])
 
                     self.plot_curve(
                         ax3, y_data, x_data, "dx", "Dynamics error", tics=tics
@@ -2006,29 +1989,17 @@ class post_process:
                 else:
                     ax2 = plt.subplot(1, 2, 2)
                     if "t_x" in self.residuals:
-                        y_data = [
-                            r_seg
-                            for r_p in self.residuals["t_x"][1]
-                            for r_seg in r_p
-                            if r_seg is not None
-                        ]
-
-                        x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
-                        y_data = np.concatenate(y_data)
+                        x_data, y_data = self.get_residual_series(
+                            self.residuals["t_x"]
+                        )
 
                         self.plot_curve(
                             ax2, y_data, x_data, "x", "States error", tics=tics
                         )
                     else:
-                        y_data = [
-                            np.concatenate(
-                                [r_seg for r_seg in r_p if r_seg is not None]
-                            )
-                            for r_p in self.residuals["t_dx"][1]
-                        ]
-
-                        x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
-                        y_data = np.concatenate(y_data)
+                        x_data, y_data = self.get_residual_series(
+                            self.residuals["t_dx"]
+                        )
 
                         self.plot_curve(
                             ax2, y_data, x_data, "dx", "Dynamics error", tics=tics
@@ -2038,6 +2009,26 @@ class post_process:
 
         return fig, axs
 
+    @staticmethod
+    def get_residual_series(data):
+        """Residuals of all the phases one after the other
+
+        args:
+            :data: Tuple (time, residuals) for each phase and segment. Segments without
+                residuals are left out
+
+        returns:
+            Tuple : (time, residuals)
+        """
+        series = [
+            (np.ravel(t_seg), r_seg)
+            for t_phase, r_phase in zip(*data)
+            for t_seg, r_seg in zip(t_phase, r_phase)
+            if r_seg is not None
+        ]
+
+        return tuple(np.concatenate(values) for values in zip(*series))
+
     def plot_x(
         self,
         dims: List = None,
-- 
2.43.0


From e513904ef7f781ce4f4da6113033f8d5d14d21aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 21/28] fix: plot residuals of phases with different numbers of
 points

---
 mpopt/mpopt.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 763f877..9be03da 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1196,7 +1196,7 @@ class mpopt:
 
         if plot:
             fig, axs = post_process.plot_residuals(
-                ti, residuals, phases=range(self._ocp.n_phases), fig=fig, axs=axs
+                ti, residuals, phases=phases, fig=fig, axs=axs
             )
 
         return x_int, u_int, ti, residuals
@@ -2254,24 +2254,14 @@ class post_process:
     @staticmethod
     def sort_residual_data(time, residuals, phases: List = [0]):
         """Sort the given data corresponding to plases"""
-        norm_residual = lambda residual: np.concatenate(
-            [
-                np.linalg.norm(np.array(err), 2, axis=1) if err is not None else []
-                for err in residual
-            ]
-        )
-        t, r = time[0], norm_residual(residuals[0])
-        if len(phases) > 1:
-            for phase in phases[1:]:
-                tp, rp = time[phase], norm_residual(residuals[phase])
-                r = np.vstack((r, rp))
-                t = np.vstack((t, tp))
-
-            r = np.concatenate(r)
+        t, r = [], []
+        for phase in phases:
+            for t_seg, r_seg in zip(time[phase], residuals[phase]):
+                if r_seg is not None:
+                    t.append(np.ravel(t_seg))
+                    r.append(np.linalg.norm(np.array(r_seg), 2, axis=1).ravel())
 
-        t = np.concatenate(t)
-        r = r.reshape(t.shape[0], 1)
-        return (r, t)
+        return (np.concatenate(r).reshape(-1, 1), np.concatenate(t))
 
     @classmethod
     def plot_residuals(
-- 
2.43.0


From 8967865e403a1c3042f8e021366a74dcf854632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 22/28] fix: show every phase to plot in the evolution of
 residuals

---
 mpopt/mpopt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 9be03da..b306699 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2575,10 +2575,11 @@ class mpopt_h_adaptive(mpopt):
         ti, residuals = self.get_dynamics_residuals(solution)
 
         if self.plot_residual_evolution:
+            phases_to_plot = [ph for group in self._ocp.phases_to_plot for ph in group]
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=phases_to_plot,
                 name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2587,7 +2588,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=phases_to_plot,
                 # name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2765,11 +2766,12 @@ class mpopt_h_adaptive(mpopt):
         ti, residuals = self.get_dynamics_residuals(solution)
         max_error = 0.0
         if self.plot_residual_evolution:
+            phases_to_plot = [ph for group in self._ocp.phases_to_plot for ph in group]
             tics = [".", "*", "+", "d", "^"] * 15
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=phases_to_plot,
                 name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2778,7 +2780,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=phases_to_plot,
                 # name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
-- 
2.43.0


From 3417c87074460ba3e5709b07a8574e6cc9d5cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 23/28] fix: leave out the end of the phase from the fixed
 residual grid, not a point of its first segment

---
 mpopt/mpopt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index b306699..beddf40 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1221,7 +1221,7 @@ class mpopt:
             # Equally spaced nodes per phase
             n_nodes = max(sum(self.poly_orders) + 2, self._MAX_GRID_POINTS + 2)
 
-            target_nodes = np.linspace(self.tau0, self.tau1, n_nodes)
+            target_nodes = np.linspace(self.tau0, self.tau1, n_nodes)[1:-1]
             taus_on_original_grid = (
                 self.compute_interpolation_taus_corresponding_to_original_grid(
                     target_nodes,
@@ -1232,7 +1232,6 @@ class mpopt:
                     tau1=self.tau1,
                 )
             )
-            taus_on_original_grid[0] = taus_on_original_grid[0][:-1]
         elif grid_type == "mid-points":
             mid_points = lambda x: np.array(
                 [(x[i] + x[i + 1]) / 2.0 for i in range(len(x) - 1)]
-- 
2.43.0


From dc0aaf18ad169bc56bdb65a08f324346896628bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 24/28] fix: let solve_ph cope with segments without residual
 points

---
 mpopt/mpopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index beddf40..509325c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4466,7 +4466,11 @@ class mpopt_ph_adaptive(mpopt):
         max_r_phases = [None] * len(residual)
         for i_phase, r_phase in enumerate(residual):
             max_r_phase = [None] * len(r_phase)
+            nx = max(np.shape(r)[1] for r in r_phase if r is not None)
             for i_seg, r_seg in enumerate(r_phase):
+                if r_seg is None:
+                    # No residual is known in this segment
+                    r_seg = np.zeros((1, nx))
                 r_max_seg = abs(np.array(r_seg)).max(axis=0)
                 i_max_seg = abs(np.array(r_seg)).argmax(axis=0)
                 max_r_phase[i_seg] = [i_max_seg, r_max_seg]
-- 
2.43.0


From 744d4fcad316c1edbc42f9b860c476bd9eb403cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 25/28] fix: return the figure from plot_phase

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 509325c..3f4ef5e 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1922,7 +1922,7 @@ class post_process:
                 fig - handle to the figure obj. of plot (matplotlib figure object)
                 axs - handle to the axis of plot (matplotlib figure object)
         """
-        fig, axs = self.plot_phases([phase], interpolate, fig=fig, axs=axs)
+        return self.plot_phases([phase], interpolate, fig=fig, axs=axs)
 
     def plot_phases(
         self,
-- 
2.43.0


From 7a261978729d3f535a26a8206b821b76d3d95dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 26/28] fix: plot more variables than there are line styles

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 3f4ef5e..22bbfa2 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2207,7 +2207,7 @@ class post_process:
             state_index = i + 1 if legend_index is None else legend_index[i]
             # state_index = ""  # if legend_index is None else legend_index[i]
             label = f"{name} {state_index}" if name is not None else name
-            ax.plot(t, x[:, i], tics[i], label=label)
+            ax.plot(t, x[:, i], tics[i % len(tics)], label=label)
         ax.set(ylabel=ylabel)
         if name is not None:
             ax.legend()
-- 
2.43.0


From 7989a2a8a6f1e108b28d742adb7abd5dc897681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 27/28] fix: start from the straight line also when the guessed
 initial and final times coincide

---
 mpopt/mpopt.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 22bbfa2..fad0e9e 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -715,12 +715,8 @@ class mpopt:
         z0[0] = np.concatenate(
             np.array(
                 [
-                    x00 + (xf0 - x00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    x00 + (xf0 - x00) * s
+                    for s in np.linspace(0, 1, self._Npoints)
                 ]
             ).T
         )
@@ -728,12 +724,8 @@ class mpopt:
         z0[1] = np.concatenate(
             np.array(
                 [
-                    u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    u00 + (uf0 - u00) * s
+                    for s in np.linspace(0, 1, self._Npoints)
                 ]
             ).T
         )
@@ -3056,12 +3048,8 @@ class mpopt_adaptive(mpopt):
         z0[0] = np.concatenate(
             np.array(
                 [
-                    x00 + (xf0 - x00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    x00 + (xf0 - x00) * s
+                    for s in np.linspace(0, 1, self._Npoints)
                 ]
             ).T
         )
@@ -3069,12 +3057,8 @@ class mpopt_adaptive(mpopt):
         z0[1] = np.concatenate(
             np.array(
                 [
-                    u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    u00 + (uf0 - u00) * s
+                    for s in np.linspace(0, 1, self._Npoints)
                 ]
             ).T
         )
-- 
2.43.0


From a927c6f3c024de1be9c6d2c5d506e28683183e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:24 +0000
Subject: [PATCH 28/28] fix: plot a single group of variables under their own
 labels

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index fad0e9e..ca1cf16 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2168,7 +2168,7 @@ class post_process:
                 fig, axs = plt.subplots(1, n)
         for i in range(n):
             ax = axs if n == 1 else axs[i]
-            dim = dims if n == 1 else dims[i]
+            dim = dims[i] if isinstance(dims[0], list) else dims
             self.plot_curve(
                 ax,
                 var_data[:, dim],
-- 
2.43.0

