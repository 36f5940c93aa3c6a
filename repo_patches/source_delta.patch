From 18f87db11097b6c8dcfa7b7852e69d1961f9e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:18 +0000
Subject: [PATCH 01/33] fix: bisection step keeps the subdivided case count
 when it is run again

---
 beluga/continuation/continuation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 429d8b7..5b09109 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -240,6 +240,12 @@ class BisectionStrategy(ManualStrategy):
         self.division_ctr = 0
         self.orig_num_cases = initial_num_cases
 
+    def reset(self):
+        """Resets the internal step counter and discards subdivisions made in a previous run"""
+        super(BisectionStrategy, self).reset()
+        self._num_cases = self.orig_num_cases
+        self.division_ctr = 0
+
     def next(self, ignore_last_step=False):
         """Generator class to create BVPs for the continuation step iterations
 
-- 
2.43.0


From 0f140688171147f9ad7ce1961e759def4a9bd5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:18 +0000
Subject: [PATCH 02/33] fix: product-space steps reuse the stale schedule of a
 previous run

---
 beluga/continuation/continuation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 5b09109..6f58b35 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -352,6 +352,7 @@ class ProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
 
         ls_set = [np.linspace(self.vars[var_name].value, self.vars[var_name].target,
                               self._num_subdivisions) for var_name in self.vars.keys()]
@@ -443,6 +444,7 @@ class SparseProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
             lower_bounds.append(sol.const[jj])
             upper_bounds.append(self.vars[var_name].target)
 
-- 
2.43.0


From e995cd4c200dd71ee8295d2d745ec112361413c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:18 +0000
Subject: [PATCH 03/33] fix: bisection never ends when a point cannot be
 reached

---
 beluga/continuation/continuation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 6f58b35..7d10aab 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -269,6 +269,7 @@ class BisectionStrategy(ManualStrategy):
             raise RuntimeError('Exceeded max_divisions')
 
         # If previous step did not converge, move back a half step
+        made_progress = False
         for var_name in self.var_iterator():
             old_steps = self.vars[var_name].steps
             if self._spacing == 'linear':
@@ -279,12 +280,21 @@ class BisectionStrategy(ManualStrategy):
             else:
                 raise ValueError('Invalid spacing type')
 
+            bounds = old_steps[self.ctr-2:self.ctr]
+            if np.any((new_steps[1:-1] > min(bounds)) & (new_steps[1:-1] < max(bounds))):
+                made_progress = True
+
             # Insert new steps
             self.vars[var_name].steps = np.insert(
                     self.vars[var_name].steps,
                     self.ctr-1,
                     new_steps[1:-1]  # Ignore first element as it is repeated
                 )
+        # A converged subdivision resets division_ctr, so an unreachable point would otherwise be divided forever
+        if not made_progress:
+            logging.error('Step size cannot be reduced further')
+            raise RuntimeError('Step size cannot be reduced further')
+
         # Move the counter back
         self.ctr = self.ctr - 1
         # Increment total number of steps
-- 
2.43.0


From 2c2ea442b6964486c5ead5ee7a98297474d3c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:02 +0000
Subject: [PATCH 04/33] fix: shooting with a process pool passes a stray
 control argument to the dynamics

---
 beluga/numeric/bvp_solvers/Shooting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 2d1eb2b..888ed76 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -284,13 +284,13 @@ class Shooting(BaseAlgorithm):
             u0g[ii] = _u0g
 
         def preload(args):
-            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2], args[3],
+            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2],
                         dyn_param, sol.const)
 
         if pool is not None:
-            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g, u0g))
+            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g))
         else:
-            gamma_set_new = [preload([T, Y, Q, U]) for T, Y, Q, U in zip(tspan, y0g, q0g, u0g)]
+            gamma_set_new = [preload([T, Y, Q]) for T, Y, Q in zip(tspan, y0g, q0g)]
 
         if n_arcs > 1 and nquads > 0:
             for ii in range(n_arcs - 1):
-- 
2.43.0


From c3af0d4cee211f72ad12a8ab559b5db22b022fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:57 +0000
Subject: [PATCH 05/33] fix: shooting reports convergence from a residual that
 is not the returned solution's

---
 beluga/numeric/bvp_solvers/Shooting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 888ed76..ffd3eee 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -680,22 +680,22 @@ class Shooting(BaseAlgorithm):
             opt = minimize(cost, x_init, method=self.algorithm, tol=self.tolerance, constraints=constraint,
                            options={'maxiter': self.max_iterations})
 
-            err = opt.fun
+            err = np.linalg.norm(_constraint_function_wrapper(opt.x)) ** 2
             x_init = opt.x
-            n_iter = opt.nit
-            converged = opt.success and isclose(err, 0, abs_tol=self.tolerance)
+            n_iter = opt.get('nit', -1)
+            converged = bool(opt.success and isclose(err, 0, abs_tol=self.tolerance))
 
         elif self.algorithm in scipy_root_algorithms:
             opt = root(_constraint_function_wrapper, x_init, jac=_jacobian_function_wrapper, method=self.algorithm,
                        tol=self.tolerance, options={'maxiter': self.max_iterations})
-            err = opt.fun
+            err = np.linalg.norm(opt.fun)
             x_init = opt.x
             n_iter = -1
-            converged = opt.success
+            converged = bool(opt.success and err <= self.tolerance)
 
         elif self.algorithm.lower() == 'fsolve':
             x = fsolve(_constraint_function_wrapper, x_init, fprime=_jacobian_function_wrapper, xtol=self.tolerance)
-            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
+            err = np.linalg.norm(_constraint_function_wrapper(x))**2
             x_init = x
             n_iter = -1
             converged = isclose(err, 0, abs_tol=self.tolerance)
-- 
2.43.0


From f51b1604d620632cf837f764a3a662040f1728ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:26 +0000
Subject: [PATCH 06/33] fix: algebraic control law keeps a first candidate that
 is not real

---
 beluga/numeric/compilation/component_compilation.py | 2 +-
 beluga/numeric/data_classes/trajectory_mappers.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/compilation/component_compilation.py b/beluga/numeric/compilation/component_compilation.py
index e2a35cb..8661c05 100644
--- a/beluga/numeric/compilation/component_compilation.py
+++ b/beluga/numeric/compilation/component_compilation.py
@@ -28,7 +28,7 @@ def compile_control(control_options, args, ham_func, lambdify_func=jit_lambdify)
             ham = ham_func(_y, u, _p, _k)
             for n in range(1, num_options):
                 ham_i = ham_func(_y, u_set[n, :], _p, _k)
-                if ham_i < ham:
+                if ham_i < ham or np.isnan(ham):
                     u = u_set[n, :]
                     ham = ham_i
 
diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index ec8be83..4208e7f 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -210,7 +210,7 @@ class AlgebraicControlMapper(SolMapper):
                 ham = ham_func(_t, _y, _lam, u, _p, _k)
                 for n in range(1, num_options):
                     ham_i = ham_func(_t, _y, _lam, u_set[n, :], _p, _k)
-                    if ham_i < ham:
+                    if ham_i < ham or np.isnan(ham):
                         u = u_set[n, :]
                         ham = ham_i
 
-- 
2.43.0


From 69997c4f88789218b4eeef0e6791c7434c14bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:34 +0000
Subject: [PATCH 07/33] fix: differential control law puts the control's
 costate in another column

---
 beluga/numeric/data_classes/trajectory_mappers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 4208e7f..6826cef 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -262,11 +262,11 @@ class DifferentialControlMapperDiffyG(SolMapper):
             else:
                 costate_insert = control_costate * np.ones_like(sol.t)
 
-            sol.dual = np.insert(sol.dual, -1, costate_insert, axis=1)
+            sol.dual = np.insert(sol.dual, idx_y, costate_insert, axis=1)
             if len(sol.dual_u) == 0:
-                sol.dual_u = np.array([costate_insert])
+                sol.dual_u = np.array([costate_insert]).T
             else:
-                sol.dual_u = np.insert(sol.dual_u, -1, costate_insert, axis=1)
+                sol.dual_u = np.column_stack((sol.dual_u, costate_insert))
 
             idx_u_list.append(idx_u)
 
-- 
2.43.0


From 49c0cc4f8776702d202000a6e67649bc636428b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:32 +0000
Subject: [PATCH 08/33] fix: spbvp with analytical Jacobians fails on a problem
 without parameters

---
 beluga/numeric/bvp_solvers/SPBVP.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index 6a982a3..ca5fba6 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -95,7 +95,11 @@ class SPBVP(BaseAlgorithm):
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
                     dbc_dya, dbc_dyb, dbc_dp = \
                         self.boundarycondition_function_jac(ya, yb, params[:ndyn], params[ndyn:ndyn+nnondyn], const)
-                    return dbc_dya, dbc_dyb, dbc_dp
+
+                    if ndyn + nnondyn == 0:
+                        return dbc_dya, dbc_dyb
+                    else:
+                        return dbc_dya, dbc_dyb, dbc_dp
         else:
             _bc_jac = None
 
-- 
2.43.0


From e4efec3757039dd18aa2a3178c3f2a95b0bf576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:40 +0000
Subject: [PATCH 09/33] fix: static guess generator alters the user's guess, so
 using it again fails

---
 beluga/continuation/guess_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 25b1139..a4a1ae8 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -69,7 +69,7 @@ class GuessGenerator(object):
 
     def static(self, bvp_fn, solinit, ocp_map, ocp_map_inverse):
         """Directly specify initial guess structure"""
-        return ocp_map(self.solinit)
+        return ocp_map(copy.deepcopy(self.solinit))
 
     def setup_auto(self, start=None, direction='forward', time_integrate=1, quad_guess=np.array([]), costate_guess=0.1,
                    control_guess=0.1, use_control_guess=False, param_guess=None):
-- 
2.43.0


From 57760cc914245072445f0dd6210ff2063acdfe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:40 +0000
Subject: [PATCH 10/33] fix: guess generator constructor discards the settings
 given to it

---
 beluga/continuation/guess_generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index a4a1ae8..5a2cf29 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -33,7 +33,6 @@ class GuessGenerator(object):
         self.generate_funcs = {'auto': self.auto,
                                'static': self.static,
                                'ones': self.ones}
-        self.setup(**kwargs)
         self.dae_num_states = 0
 
         self.mode = 'auto'
@@ -47,6 +46,8 @@ class GuessGenerator(object):
         self.control_guess = None
         self.use_control_guess = False
 
+        self.setup(**kwargs)
+
     def setup(self, mode='auto', **kwargs):
         """Sets up the initial guess generation process"""
         self.mode = mode
-- 
2.43.0


From e4994b4981ce6dc30c09f63f75c2044a64e71b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:40 +0000
Subject: [PATCH 11/33] fix: a scalar control guess (the default) cannot be
 used with differential control

---
 beluga/beluga.py                        | 1 +
 beluga/continuation/guess_generators.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/beluga/beluga.py b/beluga/beluga.py
index e56b641..55cc64f 100755
--- a/beluga/beluga.py
+++ b/beluga/beluga.py
@@ -160,6 +160,7 @@ def solve(
 
     solinit = Trajectory()
     solinit.const = np.array(getattr_from_list(bvp.constants, 'default_val'))
+    guess_generator.dae_num_states = len(ocp.controls)
     solinit = guess_generator.generate(bvp.functional_problem, solinit, ocp_map, ocp_map_inverse)
 
     if initial_helper:
diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 5a2cf29..bdfb39e 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -112,7 +112,7 @@ class GuessGenerator(object):
         else:
             d0 = np.r_[self.costate_guess]
 
-        if isinstance(self.control_guess, float) or isinstance(self.control_guess, float):
+        if isinstance(self.control_guess, float) or isinstance(self.control_guess, int):
             u0 = self.control_guess*np.ones(self.dae_num_states)
         else:
             u0 = self.control_guess
@@ -191,7 +191,7 @@ class GuessGenerator(object):
         else:
             d0 = np.r_[self.costate_guess]
 
-        if isinstance(self.control_guess, float) or isinstance(self.control_guess, float):
+        if isinstance(self.control_guess, float) or isinstance(self.control_guess, int):
             u0 = self.control_guess * np.ones(self.dae_num_states)
         else:
             u0 = self.control_guess
-- 
2.43.0


From 75ba621008449ce2b936d8a31a986273fea3379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:39 +0000
Subject: [PATCH 12/33] fix: quick reconstruction calls the quadratures with a
 stray time argument

---
 beluga/numeric/ivp_solvers/ivpsol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 4f2ddfa..aa50528 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -96,7 +96,7 @@ class Propagator(Algorithm):
 
         if quad_func is not None and len(q0) != 0:
             if self.quick_reconstruct:
-                qf = integrate_quads(quad_func, tspan, gamma, *args)
+                qf = integrate_quads(lambda _t, _y, *_args: quad_func(_y, *_args), tspan, gamma, *args)
                 gamma.q = np.vstack((q0, np.zeros((len(gamma.t)-2, len(q0))), qf+q0))
             else:
                 gamma = reconstruct(quad_func, gamma, q0, *args)
-- 
2.43.0


From 6c504d13158f02a078840491f6570125c4153d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:39 +0000
Subject: [PATCH 13/33] fix: fixed-step propagation fails backwards in time and
 when rounding oversteps the end

---
 beluga/numeric/ivp_solvers/ivpsol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index aa50528..d63b7e2 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -84,9 +84,9 @@ class Propagator(Algorithm):
                 int_sol = solve_ivp(lambda t, _y: eom_func(_y, *args), [tspan[0], tspan[-1]], y0,
                                     rtol=self.reltol, atol=self.abstol, max_step=self.maxstep, method=self.stepper)
             else:
-                T = np.arange(tspan[0], tspan[-1], self.maxstep)
-                if T[-1] != tspan[-1]:
-                    T = np.hstack((T, tspan[-1]))
+                T = np.arange(tspan[0], tspan[-1], np.copysign(self.maxstep, tspan[-1] - tspan[0]))
+                # Rounding can make the last step end next to or past the end of the interval
+                T = np.hstack((T[abs(T - tspan[0]) < (1 - 1e-12)*abs(tspan[-1] - tspan[0])], tspan[-1]))
                 int_sol = solve_ivp(lambda t, _y: eom_func(_y, *args), [tspan[0], tspan[-1]], y0,
                                     rtol=self.reltol, atol=self.abstol, method=self.stepper, t_eval=T)
             gamma = Trajectory(int_sol.t, int_sol.y.T)
-- 
2.43.0


From 77d8a26de30c16f44b4e81c5671c137108ce1829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:39 +0000
Subject: [PATCH 14/33] fix: quadratures over a trajectory propagated in
 reverse are wrong

---
 beluga/numeric/ivp_solvers/ivpsol.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index d63b7e2..2512769 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -154,17 +154,20 @@ def integrate_quads(quadfun, tspan, gamma, *args):
     :param args: Additional arguments needed by quadfun.
     :return: Value of the quads at :math:`t_f`.
     """
-    if tspan[0] < gamma.t[0]:
+    # Time decreases along a trajectory that was propagated in reverse
+    sgn = 1 if gamma.t[0] <= gamma.t[-1] else -1
+
+    if sgn*tspan[0] < sgn*gamma.t[0]:
         raise Exception('Time span out of integration bounds.')
 
-    if tspan[-1] > gamma.t[-1]:
+    if sgn*tspan[-1] > sgn*gamma.t[-1]:
         raise Exception('Time span out of integration bounds.')
 
     t_len = len(gamma.t)
     x_set_temp = np.arange(0, t_len, 1)
 
-    ind0 = int(np.ceil(np.interp(tspan[0], gamma.t, x_set_temp)))
-    indf = int(np.ceil(np.interp(tspan[-1], gamma.t, x_set_temp)))
+    ind0 = int(np.ceil(np.interp(sgn*tspan[0], sgn*gamma.t, x_set_temp)))
+    indf = int(np.ceil(np.interp(sgn*tspan[-1], sgn*gamma.t, x_set_temp)))
 
     if tspan[0] != gamma.t[ind0]:
         t_interp = np.array([tspan[0]])
-- 
2.43.0


From 65d3e59b386cb513e4a856e51d8df2af37e1f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:39 +0000
Subject: [PATCH 15/33] fix: the Radau stepper cannot be selected

---
 beluga/numeric/ivp_solvers/ivpsol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 2512769..ab19f5c 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -61,6 +61,8 @@ class Propagator(Algorithm):
         obj.method = kwargs.get('method', 'RKMK').upper()
         obj.quick_reconstruct = kwargs.get('quick_reconstruct', False)
         obj.stepper = kwargs.get('stepper', 'RK45').upper()
+        if obj.stepper == 'RADAU':
+            obj.stepper = 'Radau'
         obj.variable_step = kwargs.get('variable_step', True)
         return obj
 
-- 
2.43.0


From fd44d7b0a26d9a4badd075ca1fcf5a1e48f23034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:10 +0000
Subject: [PATCH 16/33] fix: tables cannot be declared (np.float no longer
 exists)

---
 beluga/symbolic/data_classes/components_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 334a772..a6e3bd8 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -234,8 +234,8 @@ class TableStruct(CallableStruct):
                  dim_consistent=False, local_compiler=None):
 
         self.table_type = table_type
-        self.data = np.array(data, dtype=np.float)
-        self.arg_data = np.array(arg_data, dtype=np.float)
+        self.data = np.array(data, dtype=float)
+        self.arg_data = np.array(arg_data, dtype=float)
         self.dim_consistent = dim_consistent
 
         # TODO Add checks for size of data, arg_data consistent with type
-- 
2.43.0


From 354f70a957f0c86c30b5852a923f8cdba84a915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:19 +0000
Subject: [PATCH 17/33] fix: tables fail with composite or substituted
 arguments

---
 beluga/symbolic/special_functions/tables.py | 37 +++++++++------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 80d69c7..7910892 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -22,12 +22,14 @@ class SymTableGenerator(object):
 
 
 class SymTableMeta(Function):
-    def __new__(cls, table, arg, local_compiler=None):
+    # Belong to the class so that sympy can rebuild the function with other arguments, i.e. cls(arg)
+    table = None
+    local_compiler = None
+    order = 0
+
+    def __new__(cls, arg):
         obj = super(SymTableMeta, cls).__new__(cls, arg)
         obj.nargs = (1,)
-        obj.order = 0
-        obj.table = table
-        obj.local_compiler = local_compiler
         return obj
 
     @property
@@ -46,27 +48,20 @@ class SymTableMeta(Function):
 
 class SymTable(SymTableMeta):
     def __new__(cls, table, arg, local_compiler=None, order=0):
-        name = cls.construct_name(str(table), str(arg), order)
-        obj = type(name, (SymTableMeta,), {})(table, arg, local_compiler=local_compiler)
-        obj.table_func = table.form_eval_function(order)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.table_func)
-        obj.order = order
-        return obj
+        name = cls.construct_name(str(table), order)
+        table_func = table.form_eval_function(order)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, table_func)
+        sym_class = type(name, (SymTableMeta,), {'table': table, 'table_func': staticmethod(table_func),
+                                                 'local_compiler': local_compiler, 'order': order})
+        return sym_class(arg)
 
     @staticmethod
-    def construct_name(table_name, arg_name, order):
+    def construct_name(table_name, order):
         if order == 0:
-            pre = ''
-            post = ''
-        elif order == 1:
-            pre = 'd'
-            post = '_d' + arg_name
+            return table_name
         else:
-            pre = 'd' + str(order)
-            post = '_d' + arg_name + str(order)
-        return pre + table_name + post
+            return 'd' + str(order) + table_name
 
 
 class TableSpline1D(object):
-- 
2.43.0


From 846083d8d4570a9345ff81f1f24e017e725a4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:19 +0000
Subject: [PATCH 18/33] fix: custom functions fail with composite or
 substituted arguments

---
 .../special_functions/custom_functions.py     | 66 ++++++++-----------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 497c351..2f525eb 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -44,16 +44,16 @@ class CustomFunctionGenerator(object):
 
 
 class CustomFunctionMeta(Function):
-    def __new__(cls, base_name, base_func, arg_list):
+    # Belong to the class so that sympy can rebuild the function with other arguments, i.e. cls(*arg_list)
+    base_name = None
+    base_func = None
+    local_compiler = None
+    order = None
+    deriv_method = 'c_diff'
+
+    def __new__(cls, *arg_list):
         obj = super(CustomFunctionMeta, cls).__new__(cls, *arg_list)
         obj.nargs = (len(arg_list),)
-        obj.arg_list = tuple(arg_list)
-        obj.base_name = base_name
-        if type(base_func) is CPUDispatcher:
-            obj.base_func = base_func
-        else:
-            obj.base_func = jit_compile_func(base_func, arg_list)
-
         return obj
 
     def __deepcopy__(self, memodict=None):
@@ -67,8 +67,8 @@ class CustomFunctionMeta(Function):
         if argindex <= self.nargs[0]:
             order = list(self.order)
             order[argindex - 1] += 1
-            return CustomFunction(self.base_name, self.base_func, self.arg_list,
-                                  order=tuple(order), local_compiler=self.local_compiler)
+            return CustomFunction(self.base_name, self.base_func, self.args, order=tuple(order),
+                                  local_compiler=self.local_compiler, deriv_method=self.deriv_method)
         else:
             raise ArgumentIndexError(self, argindex)
 
@@ -81,17 +81,20 @@ class CustomFunction(Function):
         if order is None:
             order = ([0 for _ in range(len(arg_list))])
 
-        name = cls.construct_name(base_name, arg_list, order)
-        obj = type(name, (CustomFunctionMeta,), {})(name, base_func, arg_list)
+        if type(base_func) is not CPUDispatcher:
+            base_func = jit_compile_func(base_func, ['scalar' for _ in arg_list])
+
+        name = cls.construct_name(base_name, order)
         if sum(order) == 0:
-            obj.eval_func = base_func
+            eval_func = base_func
         else:
-            obj.eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.eval_func)
-        obj.order = order
-        return obj
+            eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, eval_func)
+        sym_class = type(name, (CustomFunctionMeta,), {
+            'base_name': base_name, 'base_func': staticmethod(base_func), 'eval_func': staticmethod(eval_func),
+            'local_compiler': local_compiler, 'order': tuple(order), 'deriv_method': deriv_method})
+        return sym_class(*arg_list)
 
     @staticmethod
     def check_args(arg_list, base_func):
@@ -102,25 +105,8 @@ class CustomFunction(Function):
                               .format(base_func.__name__))
 
     @staticmethod
-    def construct_name(func_name, arg_list, order):
-        total_order = sum(order)
-
-        post = '_'
-        for arg_k, order_k in zip(arg_list, order):
-            if order_k == 0:
-                pass
-            elif order_k == 1:
-                post += 'd' + str(arg_k)
-            else:
-                post += 'd' + str(arg_k) + str(order_k)
-
-        if total_order == 0:
-            pre = ''
-            post = ''
-        elif total_order == 1:
-            pre = 'd'
+    def construct_name(func_name, order):
+        if sum(order) == 0:
+            return func_name
         else:
-            pre = 'd' + str(total_order)
-
-        return pre + func_name + post
-
+            return 'd' + '_'.join(str(order_k) for order_k in order) + func_name
-- 
2.43.0


From 4e673d26d37c1d8cd03f9033de503dd96c7d1ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:19 +0000
Subject: [PATCH 19/33] fix: tables cannot be evaluated at their last point or
 outside their data

---
 beluga/symbolic/special_functions/tables.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 7910892..83bb535 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -100,7 +100,7 @@ class TableSpline1D(object):
 
         if order == 0:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), len(data_x) - 1)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -108,7 +108,7 @@ class TableSpline1D(object):
 
         elif order == 1:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), len(data_x) - 1)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -116,7 +116,7 @@ class TableSpline1D(object):
 
         elif order == 2:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), len(data_x) - 1)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -124,7 +124,7 @@ class TableSpline1D(object):
 
         elif order == 3:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), len(data_x) - 1)
                 coeff = coeff_set[i - 1]
                 return 6*(coeff[0] - coeff[1])
 
-- 
2.43.0


From 7584deed0dab4ccce6997443684576f7fce11e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:44 +0000
Subject: [PATCH 20/33] fix: derivatives of custom functions of several
 arguments fail

---
 beluga/numeric/numerical_derivatives/finite_diff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/finite_diff.py b/beluga/numeric/numerical_derivatives/finite_diff.py
index 5366358..4cfe486 100644
--- a/beluga/numeric/numerical_derivatives/finite_diff.py
+++ b/beluga/numeric/numerical_derivatives/finite_diff.py
@@ -31,7 +31,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             func = njit(tuple(arg_list))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative\n\tError: {}'.format(func.__name__, e))
 
     step_array = []
     coeff_array = []
@@ -74,7 +74,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
         try:
             fin_diff = njit((arg_type,))(fin_diff)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}\n\tError: {}'.format(func.__name__, e))
 
     else:
         try:
@@ -90,7 +90,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             fin_diff = njit((types.UniTuple(arg_type, arg_len),))(fin_diff)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}\n\tError: {}'.format(func.__name__, e))
 
             def fin_diff(*args):
                 diff = 0.
-- 
2.43.0


From 63ec39e6cd4e1d4cffe9857d566faba699bc12a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:10 +0000
Subject: [PATCH 21/33] fix: symplectic reduction fails with the algebraic
 control law

---
 beluga/symbolic/data_classes/mapping_functions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 2887a2b..d1c7535 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -597,11 +597,15 @@ class MishchenkoFomenko(GenericFunctor):
             bc.expr, _ = recursive_sub(bc.expr, solve_for_q[0])
 
         for idx, law in enumerate(prob.control_law):
-            for jj, symbol in enumerate(law.keys()):
-                prob.control_law[idx][symbol], _ = recursive_sub(prob.sympify(law[symbol]), solve_for_p[0])
-                # prob.control_law[idx][symbol] = law[symbol]
-                prob.control_law[idx][symbol], _ = recursive_sub(prob.sympify(law[symbol]), solve_for_q[0])
-                # prob.control_law[idx][symbol] = law[symbol]
+            new_law = []
+            for expr in law:
+                expr, _ = recursive_sub(expr, solve_for_p[0])
+                expr, _ = recursive_sub(expr, solve_for_q[0])
+                new_law.append(expr)
+            prob.control_law[idx] = tuple(new_law)
+
+        prob.hamiltonian.expr, _ = recursive_sub(prob.hamiltonian.expr, solve_for_p[0])
+        prob.hamiltonian.expr, _ = recursive_sub(prob.hamiltonian.expr, solve_for_q[0])
 
         for idx, com in enumerate(prob.constants_of_motion):
             if idx != self.com_index:
-- 
2.43.0


From d0eba0897149c0cb21ff8ac9073886a02a4063ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:56 +0000
Subject: [PATCH 22/33] fix: spbvp fails with analytical Jacobians and quads

---
 beluga/numeric/bvp_solvers/SPBVP.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index ca5fba6..70b9803 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -63,7 +63,8 @@ class SPBVP(BaseAlgorithm):
                                                        yb[nstates:nstates+nquads], params[:ndyn],
                                                        params[ndyn:ndyn+nnondyn], const)
 
-        if self.derivative_function_jac is not None:
+        # The Jacobian does not cover the quads, which are collocated like states: estimate it numerically then
+        if self.derivative_function_jac is not None and nquads == 0:
             def _fun_jac(t, y, params=np.array([]), const=solinit.const):
                 y = y.T
                 df_dy = np.zeros((y[0].size, y[0].size, t.size))
@@ -86,11 +87,16 @@ class SPBVP(BaseAlgorithm):
         if self.boundarycondition_function_jac is not None:
             if nquads > 0:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
-                    dbc_dya, dbc_dyb, dbc_dp = \
+                    dbc_dya, dbc_dyb, dbc_dp, dbc_dqa, dbc_dqb = \
                         self.boundarycondition_function_jac(ya[:nstates], ya[nstates:nstates+nquads], yb[:nstates],
                                                             yb[nstates:nstates+nquads], params[:ndyn],
                                                             params[ndyn:ndyn+nnondyn], const)
-                    return dbc_dya, dbc_dyb, dbc_dp
+                    dbc_dya, dbc_dyb = np.hstack((dbc_dya, dbc_dqa)), np.hstack((dbc_dyb, dbc_dqb))
+
+                    if ndyn + nnondyn == 0:
+                        return dbc_dya, dbc_dyb
+                    else:
+                        return dbc_dya, dbc_dyb, dbc_dp
             else:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
                     dbc_dya, dbc_dyb, dbc_dp = \
-- 
2.43.0


From 8a921cf12aa87b4acde1f2d1bdaad96d7b8218d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:56 +0000
Subject: [PATCH 23/33] fix: a refused scale declaration adds some of its units

---
 beluga/symbolic/data_classes/symbolic_problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index 08bedbd..398c31d 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -205,6 +205,7 @@ class Problem:
     def scale(self, **kwargs):
         for name in kwargs.keys():
             self.check_for_duplicate(name)
+        for name in kwargs.keys():
             self.units.append(NamedExpressionStruct(name, kwargs[name], local_compiler=self.local_compiler))
         return self
 
-- 
2.43.0


From 12813c836f37b8c853be4399b80000a5f5d6e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:56 +0000
Subject: [PATCH 24/33] fix: a constant refused for its value keeps its name
 taken

---
 beluga/symbolic/data_classes/components_structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index a6e3bd8..c53c3d4 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -76,8 +76,8 @@ class NamedDimensionalStruct(NamedStruct, DimensionalStruct):
 
 class Constant(NamedDimensionalStruct):
     def __init__(self, name: str, default_val: float, units: str, local_compiler: LocalCompiler = None):
-        super(Constant, self).__init__(name, units, local_compiler=local_compiler)
         self.default_val = float(default_val)
+        super(Constant, self).__init__(name, units, local_compiler=local_compiler)
 
 
 class DynamicStruct(NamedDimensionalStruct):
-- 
2.43.0


From e27164104acbfaf1f4264cba23df62cecd638ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:04 +0000
Subject: [PATCH 25/33] fix: set_cost fails unless all three terms are given

---
 beluga/symbolic/data_classes/symbolic_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index 398c31d..6b9d8c9 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -5,7 +5,7 @@ from beluga.numeric.compilation import LocalCompiler
 from .components_structures import (GenericStruct, NamedDimensionalStruct, Constant, DynamicStruct,
                                     NamedExpressionStruct, DimensionalExpressionStruct,
                                     NamedDimensionalExpressionStruct, CostStruct, FunctionStruct, TableStruct,
-                                    SwitchStruct, SymmetryStruct, ConstraintStruct)
+                                    SwitchStruct, SymmetryStruct, ConstraintStruct, sym_zero)
 
 
 class Problem:
@@ -198,7 +198,7 @@ class Problem:
         return self
 
     # TODO Rename cost
-    def set_cost(self, initial=None, path=None, terminal=None, units=None):
+    def set_cost(self, initial=sym_zero, path=sym_zero, terminal=sym_zero, units=None):
         self.cost = CostStruct(initial=initial, path=path, terminal=terminal, units=units,
                                local_compiler=self.local_compiler)
 
-- 
2.43.0


From 9b76f9af54159bc6ab7ef576ea822618884fa36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:04 +0000
Subject: [PATCH 26/33] fix: error message of a missing activator raises a
 TypeError

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index d1c7535..b3f3a92 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -261,7 +261,7 @@ class UTM(GenericFunctor):
                 activator_units = constant.units
 
         if activator_units is None:
-            raise Exception('Activator \'' + str(constraint['activator']) + '\' not found in constants.')
+            raise Exception('Activator \'' + str(constraint.activator) + '\' not found in constants.')
 
         expr, activator, upper, lower = constraint.expr, constraint.activator, constraint.upper, constraint.lower
 
-- 
2.43.0


From 82ef2b7cb0ede25a4c1969ea1c2e266c091a8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:00 +0000
Subject: [PATCH 27/33] fix: complex-step derivatives fail for compiled
 functions and several arguments

---
 .../numerical_derivatives/complex_step.py     | 42 +++++++++----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 7a8191f..3f54d8a 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -10,13 +10,13 @@ import inspect
 def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     if max(deriv_order) > 2:
-        logging.beluga('Complex-step derivative not supported for order > 2.'
-                       ' Falling back to finite difference for {}'.format(func.__name__))
+        logging.debug('Complex-step derivative not supported for order > 2.'
+                      ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
 
     if len(np.nonzero(deriv_order)[0]) > 1:
-        logging.beluga('Complex-step derivative not supported for multivariate derivatives.'
-                       ' Falling back to finite difference for {}'.format(func.__name__))
+        logging.debug('Complex-step derivative not supported for multivariate derivatives.'
+                      ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
     else:
         arg_idx = np.nonzero(deriv_order)[0][0]
@@ -24,7 +24,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     arg_len = len(inspect.signature(func).parameters)
 
-    if arg_idx > arg_len:
+    if arg_idx >= arg_len:
         raise SyntaxError('Argument index exceeds number of arguments')
 
     if complex_arg:
@@ -32,19 +32,19 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
     else:
         arg_type = float64
 
+    if type(func) is CPUDispatcher:
+        func = func.py_func
+
+    func_re = func_im = func
+
     try:
         arg_list_re = [float64] * arg_len
         arg_list_im = [complex128] * arg_len
-        if type(func) is CPUDispatcher:
-            func.disable_compile(False)
-            func_re = func.compile(tuple(arg_list_re))
-            func_im = func.compile(tuple(arg_list_im))
-        else:
-            func_re = njit(tuple(arg_list_re))(func)
-            func_im = njit(tuple(arg_list_im))(func)
+        func_re = njit(tuple(arg_list_re))(func)
+        func_im = njit(tuple(arg_list_im))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative\n\tError: {}'.format(func.__name__, e))
 
     if arg_len == 1:
         if deriv_order == 1:
@@ -67,7 +67,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
         try:
             csd = njit((arg_type,))(csd)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}\n\tError: {}'.format(func.__name__, e))
 
     else:
         arg_select = np.concatenate((np.zeros((arg_idx,), dtype=float), np.array([1.]),
@@ -79,7 +79,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
                 def csd(*args):
                     args_k = tuple(np.array(args) + step*1j*arg_select)
-                    return func_im(args_k).imag/step
+                    return func_im(*args_k).imag/step
 
             else:
                 im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
@@ -88,21 +88,21 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
                 def csd(*args):
                     args_array = np.array(args)
-                    args_k_re = tuple(args_array + step_re, arg_len)
-                    args_k_im = tuple(args_array + step_im, arg_len)
-                    return 2 * (func_re(args_k_re) - func_im(args_k_im)).real / im_step_size ** 2
+                    args_k_re = tuple(args_array + step_re)
+                    args_k_im = tuple(args_array + step_im)
+                    return 2 * (func_re(*args_k_re) - func_im(*args_k_im)).real / im_step_size ** 2
 
             csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}\n\tError: {}'.format(func.__name__, e))
 
             if deriv_order == 1:
                 step = 1e-50
 
                 def csd(*args):
-                    args_k = tuple(np.array(args) + step * 1j * arg_select, arg_len)
-                    return func_im(args_k) / step
+                    args_k = np.array(args) + step * 1j * arg_select
+                    return func_im(*args_k).imag / step
 
             else:
                 im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
-- 
2.43.0


From 8765dfec3ad8257ae901d23644241c054faa2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:06 +0000
Subject: [PATCH 28/33] fix: finite difference of only some orders shifts every
 argument

---
 beluga/numeric/numerical_derivatives/finite_diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/numeric/numerical_derivatives/finite_diff.py b/beluga/numeric/numerical_derivatives/finite_diff.py
index 4cfe486..cf7ce26 100644
--- a/beluga/numeric/numerical_derivatives/finite_diff.py
+++ b/beluga/numeric/numerical_derivatives/finite_diff.py
@@ -15,6 +15,8 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
     if len(deriv_order) > arg_len:
         raise SyntaxError('Argument index exceeds number of arguments')
 
+    deriv_order = tuple(deriv_order) + (0,) * (arg_len - len(deriv_order))
+
     if complex_arg:
         arg_type = complex128
     else:
-- 
2.43.0


From aa57b698d79f186a500eae98a6b90a6bf2303903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:16 +0000
Subject: [PATCH 29/33] fix: analytical Jacobians are formed for the algebraic
 control method spelt in capitals

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index b3f3a92..50fcdab 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -934,7 +934,7 @@ def make_indirect_method(prob: Problem, analytical_jacobian=False, control_metho
     Form analytical jacobians
     """
     if analytical_jacobian:
-        if control_method == 'algebraic':
+        if control_method.lower() == 'algebraic':
             logging.info('Analytical Jacobians not available for algebraic control mode')
         else:
             RFfunctor >>= ComputeAnalyticalJacobians()
-- 
2.43.0


From 54d31ad976cae8a1f5b513190102eaabca6bb9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:37 +0000
Subject: [PATCH 30/33] fix: messages at the display level are lost unless a
 log file is written

---
 beluga/utils/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/utils/logging.py b/beluga/utils/logging.py
index 73e4840..ecf066f 100644
--- a/beluga/utils/logging.py
+++ b/beluga/utils/logging.py
@@ -10,7 +10,8 @@ def root():
 
 def init_logging(display_level=logging.INFO, file_level=logging.NOTSET, filename='beluga.log'):
 
-    logging_level = min(display_level, file_level)
+    # A file level of NOTSET means no file, and a logger at NOTSET would defer to the level of the root logger
+    logging_level = max(min(display_level, file_level) if file_level > logging.NOTSET else display_level, 1)
 
     beluga_logger = logging.getLogger('beluga')
     beluga_logger.setLevel(logging_level)
-- 
2.43.0


From 892559ad391fe9f63f5085ee0ce8524934941e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:22 +0000
Subject: [PATCH 31/33] fix: constant of motion of a reduced problem has the
 wrong units, so scaling it changes the problem

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 72b5fc2..1339157 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -188,7 +188,7 @@ def noether(prob, quantity):
         for jj, state in enumerate(prob.states + prob.costates):
             gstar += sympy.integrate(omega_chi[jj], state.sym)
 
-        unit = prob.constants_of_motion[0].units / quantity.units
+        unit = prob.cost.units / quantity.units
 
         return gstar, unit
 
-- 
2.43.0


From 6b914ea72316c5fad9de27582b475e93dbee31ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:10 +0000
Subject: [PATCH 32/33] fix: total derivative with dependent variables
 (subs_self is not a method of expressions)

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 1339157..ac23558 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -109,7 +109,7 @@ def total_derivative(expr, var, dependent_vars=None):
     dep_var_names = dependent_vars.keys()
     dep_var_expr = [expr for (_, expr) in dependent_vars.items()]
 
-    dfdq = [expr.diff(dep_var).subs_self(dependent_vars.items()) for dep_var in dep_var_names]
+    dfdq = [expr.diff(dep_var).subs(list(dependent_vars.items())) for dep_var in dep_var_names]
     dqdx = [qexpr.diff(var) for qexpr in dep_var_expr]
     out = sum(d1 * d2 for d1, d2 in zip(dfdq, dqdx)) + sympy.diff(expr, var)
     return out
-- 
2.43.0


From ba83ae55b984b4d0ffb965098a9da38ec93e745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:10 +0000
Subject: [PATCH 33/33] fix: reduction with a declared constant of motion
 reduced by the Hamiltonian instead

---
 beluga/symbolic/data_classes/mapping_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 50fcdab..793a036 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -347,9 +347,10 @@ class Dualize(GenericFunctor):
             lam_name = '_lam_{}'.format(parameter.name)
             prob.coparameters.append(DynamicStruct(lam_name, '0', prob.cost.units / parameter.units))
 
-        prob.constants_of_motion.append(
-            NamedDimensionalExpressionStruct('hamiltonian', prob.hamiltonian.expr, prob.hamiltonian.units,
-                                            local_compiler=prob.local_compiler).sympify_self())
+        # The Hamiltonian comes first: reduction takes the declared constants of motion and symmetries after it
+        prob.constants_of_motion.insert(
+            0, NamedDimensionalExpressionStruct('hamiltonian', prob.hamiltonian.expr, prob.hamiltonian.units,
+                                               local_compiler=prob.local_compiler).sympify_self())
 
         if self.method.lower() == 'traditional':
             for state, costate in zip(prob.states + prob.parameters, prob.costates + prob.coparameters):
-- 
2.43.0

