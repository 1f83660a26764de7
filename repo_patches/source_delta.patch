From 8592db90079429e7d293bcb7daa6c2cbe5babcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 01/95] fix: index variable data history by -step in
 Variable.set_data() and others

---
 sfepy/discrete/variables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index f052efa..20b780a 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1306,7 +1306,7 @@ class Variable(Struct):
                              % (step, -(len(self.data) - 1)))
 
         else:
-            self.data[step] = data
+            self.data[-step] = data
             self.indx = indx
 
         if not preserve_caches:
@@ -1517,7 +1517,7 @@ class FieldVariable(Variable):
         data = data.ravel()
         self.indx = slice(0, len(data))
 
-        self.data[step] = data
+        self.data[-step] = data
 
     def set_from_mesh_vertices(self, data):
         """
@@ -1794,7 +1794,7 @@ class FieldVariable(Variable):
             eq[idof::self.n_components] = self.n_components * nods \
                                           + idof + self.indx.start
 
-        out = self.data[step][eq]
+        out = self.data[-step][eq]
         if reshape:
             out.shape = (len(nods), self.n_components)
 
-- 
2.43.0


From 12935e8bd9b533de19716f3ceecb26d0f96198f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 02/95] fix: save and load restart files of variables with
 longer history

Saving failed with incomplete history in the initial steps, and the history
set by load_restart() was discarded by init_state().
---
 sfepy/discrete/problem.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index d80fe11..917347b 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -2110,7 +2110,13 @@ class Problem(Struct):
         for var in variables.iter_state():
             vgroup = fd.create_group('/', var.name, var.name)
 
-            history_length = len(var.data)
+            # The history is incomplete in the initial time steps.
+            history_length = 1
+            while ((history_length < len(var.data))
+                   and ((var.data[history_length] is not None)
+                        or ((history_length == 1) and (var.step == 0)))):
+                history_length += 1
+
             fd.create_array(vgroup, 'history_length', history_length,
                             'history length')
             for ii in range(history_length):
@@ -2174,20 +2180,30 @@ class Problem(Struct):
             ts.set_state(**ts_state)
 
             vec = variables.create_vec()
+            history = []
             for var in variables.iter_state():
                 vgroup = fd.root._f_get_child(var.name)
 
                 history_length = vgroup.history_length.read()
                 for ii in range(0, history_length):
                     data = vgroup._f_get_child('data_%d' % ii).read()
-                    var.locked = False
-                    var.set_data(data, step=-ii)
-                    var.locked = True
                     if ii == 0:
                         variables.set_vec_part(vec, var.name, data)
 
+                    else:
+                        history.append((var, ii, data))
+
+            # Initializes also the history, so it has to be set after.
             variables.init_state(vec=vec)
 
+            for var, ii, data in history:
+                # The data of all time steps share the indexing by var.indx.
+                hvec = variables.create_vec()
+                variables.set_vec_part(hvec, var.name, data)
+                var.locked = False
+                var.set_data(hvec, indx=var.indx, step=-ii)
+                var.locked = True
+
             if '/r_vec' in fd:
                 r_vec = fd.root.r_vec.read()
                 variables.r_vec = r_vec
-- 
2.43.0


From cb3836b32a716381b4ab79efa22645d58465a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 03/95] fix: return the last step state from elastodynamics
 solvers

---
 sfepy/solvers/ts_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index c486fc3..af25e91 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -756,7 +756,7 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
 
             vec = vect
 
-        return vec
+        return vect
 
 class VelocityVerletTS(ElastodynamicsBaseTS):
     """
-- 
2.43.0


From f374db79a44de0110eca23a868aa2a6e6b667ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 04/95] fix: do not record a time step reduction that was not
 applied

---
 sfepy/solvers/ts_solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index af25e91..017649e 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -288,11 +288,12 @@ def adapt_time_step(ts, status, adt, context=None, verbose=False):
         is_break = True
 
     else:
-        adt.red = adt.red * adt.red_factor
-        if adt.red < adt.red_max:
+        red = adt.red * adt.red_factor
+        if red < adt.red_max:
             is_break = True
 
         else:
+            adt.red = red
             ts.set_time_step(adt.dt0 * adt.red, update_time=True)
             output('----- new time step: %e -----' % ts.dt,
                    verbose=verbose)
-- 
2.43.0


From fce0463b69dfbf4a69e43f05733dd0bbb5c863df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 05/95] fix: do not repeat the last time step when restarting
 from it

---
 sfepy/discrete/problem.py      | 6 ++++--
 sfepy/solvers/ts.py            | 4 ++++
 sfepy/solvers/ts_dg_solvers.py | 2 ++
 sfepy/solvers/ts_solvers.py    | 5 +++++
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 917347b..95104aa 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1346,8 +1346,10 @@ class Problem(Struct):
             restart_filename = self.conf.options.get('load_restart', None)
             if restart_filename is not None:
                 variables = self.load_restart(restart_filename, ts=ts)
-                self.advance(ts)
-                ts.advance()
+                if not ts.is_finished:
+                    self.advance(ts)
+                    ts.advance()
+
                 vec0 = variables.get_state(self.active_only)
 
             return vec0
diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index 4b1f50a..012fcb1 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -29,6 +29,8 @@ class TimeStepper(Struct):
         self.set_from_data(t0, t1, dt=dt, n_step=n_step, step=step)
         self.is_quasistatic = is_quasistatic
         self.step_start_time = None
+        # Set to True after loading the state in the last time step.
+        self.is_finished = False
 
     def _get_n_step(self, t0, t1, dt):
         n_step = int(round(nm.floor(((t1 - t0) / dt) + 0.5) + 1.0))
@@ -61,6 +63,7 @@ class TimeStepper(Struct):
 
     def set_state(self, step=0, **kwargs):
         self.set_step(step=step)
+        self.is_finished = self.nt >= 1.0
 
     def set_substep_time(self, sub_dt):
         self.step_start_time = self.time
@@ -164,6 +167,7 @@ class VariableTimeStepper(TimeStepper):
 
         self.time = self.times[-1]
         self.normalize_time()
+        self.is_finished = self.nt >= 1.0
 
     def set_n_digit_from_min_dt(self, dt):
         n_step = self._get_n_step(self.t0, self.t1, dt)
diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index 855d732..e96b31e 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -92,6 +92,8 @@ class DGMultiStageTSS(TimeSteppingSolver):
         nls = get_default(nls, self.nls)
 
         vec0 = init_fun(ts, vec0)
+        if ts.is_finished:
+            return vec0
 
         self.output_step_info(ts)
         if ts.step == 0:
diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 017649e..f96c608 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -198,6 +198,8 @@ class SimpleTimeSteppingSolver(TimeSteppingSolver):
         nls = get_default(nls, self.nls)
 
         vec0 = init_fun(ts, vec0)
+        if ts.is_finished:
+            return vec0
 
         self.output_step_info(ts)
         if ts.step == 0:
@@ -709,6 +711,9 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
             nls, vec0, init_fun, prestep_fun, poststep_fun)
 
         ts = self.ts
+        if ts.is_finished:
+            return vec
+
         dt0 = self.tsc.get_initial_dt(ts, vec, unpack=unpack)
         if not isinstance(self.tsc, FixedTSC):
             ts.set_time_step(dt0, update_time=True)
-- 
2.43.0


From bea29ffa0e27fb3ea466817ded26ebd9c55ef0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 06/95] fix: do not share the state loaded from a restart file
 with the solver

---
 sfepy/discrete/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 95104aa..285acdf 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1350,7 +1350,8 @@ class Problem(Struct):
                     self.advance(ts)
                     ts.advance()
 
-                vec0 = variables.get_state(self.active_only)
+                # The state must not be shared with the solver.
+                vec0 = variables.get_state(self.active_only).copy()
 
             return vec0
 
-- 
2.43.0


From b092cd2fd3b8d48d10c372410947becc4c92b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 07/95] fix: apply boundary conditions of the last time step
 when restarting from it

---
 sfepy/discrete/problem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 285acdf..2664891 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1350,6 +1350,9 @@ class Problem(Struct):
                     self.advance(ts)
                     ts.advance()
 
+                elif update_bcs:
+                    self.time_update(ts)
+
                 # The state must not be shared with the solver.
                 vec0 = variables.get_state(self.active_only).copy()
 
-- 
2.43.0


From 5d9e77dbdfda8154b0ded44532b3fcf8bc7d237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 08/95] fix: get constant matrices of linear elastodynamics
 problems after restart

---
 sfepy/solvers/ts_solvers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index f96c608..07d5324 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -606,6 +606,11 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
             out = self.constant_matrices
 
         else:
+            if vec is None:
+                # Linear problem with matrices not cached yet (restart) or
+                # cleared - the matrices do not depend on the state.
+                vec = nm.zeros(self.di.n_dof_total, dtype=nm.float64)
+
             aux = nls.fun_grad(vec)
 
             if unpack is not None:
-- 
2.43.0


From 6710c42c2605a2673da2d42ee283ddfc062d6d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 09/95] fix: use the initial state in
 ElastodynamicsBasicTSC.get_initial_dt()

---
 sfepy/solvers/ts_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_controllers.py b/sfepy/solvers/ts_controllers.py
index 79bc596..0cefc61 100644
--- a/sfepy/solvers/ts_controllers.py
+++ b/sfepy/solvers/ts_controllers.py
@@ -125,7 +125,7 @@ class ElastodynamicsBasicTSC(TimeStepController):
         eps_a = min(*conf.eps_a)
         eps_r = min(*conf.eps_r)
 
-        aux = unpack(vec0)
+        aux = unpack(vec)
         u0, v0, a0 = aux if unpack.n_arg == 3 else (aux[0], aux[2], aux[3])
 
         d0 = eval_scaled_norm(u0, eps_a, eps_r)
-- 
2.43.0


From d228759b0b0ff3cb4259389af44443da1a7d1d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 10/95] fix: clear matrices evaluated with a different initial
 time step in elastodynamics

---
 sfepy/solvers/ts_solvers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 07d5324..ed93764 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -721,6 +721,11 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
 
         dt0 = self.tsc.get_initial_dt(ts, vec, unpack=unpack)
         if not isinstance(self.tsc, FixedTSC):
+            if dt0 != ts.dt:
+                # Initial constant matrices might depend on the time step.
+                self.clear_lin_solver(
+                    clear_constant_matrices=self.conf.has_time_derivatives,
+                )
             ts.set_time_step(dt0, update_time=True)
         while 1:
             output(self.format % (ts.time, ts.step + 1, ts.n_step),
-- 
2.43.0


From 447a21a81c95c81094393da6e321b18e90e0ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 11/95] fix: do not keep incomplete material data after a user
 function failure

---
 sfepy/discrete/materials.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/materials.py b/sfepy/discrete/materials.py
index 563c221..f4d9323 100644
--- a/sfepy/discrete/materials.py
+++ b/sfepy/discrete/materials.py
@@ -329,11 +329,19 @@ class Material(Struct):
                 elif not self.is_constant:
                     self.datas = {}
 
-        for key, term in self.iter_terms(equations):
-            self.update_data(key, ts, equations, term, problem=problem)
-
-        self.update_special_data(ts, equations, problem=problem)
-        self.update_special_constant_data(equations, problem=problem)
+        datas = self.datas.copy()
+        try:
+            for key, term in self.iter_terms(equations):
+                self.update_data(key, ts, equations, term, problem=problem)
+
+            self.update_special_data(ts, equations, problem=problem)
+            self.update_special_constant_data(equations, problem=problem)
+
+        except BaseException:
+            # Do not keep incomplete data when a user function fails - it would
+            # be considered up-to-date by the next call.
+            self.datas = datas
+            raise
 
     def get_keys(self, region_name=None):
         """
-- 
2.43.0


From deb7c12f6fd8032b0b6921609e88d1e267fdc5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 12/95] fix: reset reduced state with LCBCs when initializing
 state

---
 sfepy/discrete/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 20b780a..7366dbf 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -664,6 +664,8 @@ class Variables(Container):
             var.locked = True
 
         self.vec = vec
+        # The reduced state with LCBCs does not correspond to the new state.
+        self.r_vec = None
 
     def fill_state(self, value):
         """
-- 
2.43.0


From 216197b01cb17728aa3d1f0819be763349f58da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 13/95] fix: keep evaluate caches of variables consistent with
 data, time step and mesh

Time derivatives depend on the previous data and the time step, data used in
step 0 in place of the previous step data depend on the current data, caches
of unchanged steps must not survive advance(), set_from_qp(), init_history()
and a change of mesh coordinates.
---
 sfepy/discrete/problem.py   |  5 +++++
 sfepy/discrete/variables.py | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 2664891..7f6b308 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -793,6 +793,11 @@ class Problem(Struct):
                        update_fields=update_fields, actual=actual,
                        clear_all=clear_all, extra_dofs=extra_dofs)
 
+        if update_fields and self.equations is not None:
+            # The evaluated quantities depend on the mesh coordinates.
+            for var in self.equations.variables:
+                var.invalidate_evaluate_cache(step=None)
+
     def refine_uniformly(self, level):
         """
         Refine the mesh uniformly `level`-times.
diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 7366dbf..53cbbc0 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1206,6 +1206,7 @@ class Variable(Struct):
 
         self.data = (self.history + 1) * [None]
         self.step = 0
+        self.clear_evaluate_cache()
 
     def time_update(self, ts, functions):
         """Implemented in subclasses."""
@@ -1218,6 +1219,8 @@ class Variable(Struct):
         """
         if self.history is None: return
 
+        # The current data are used as the previous step data in step 0.
+        shift_caches = self.step > 0
         self.step = ts.step + 1
 
         if self.history > 0:
@@ -1233,20 +1236,20 @@ class Variable(Struct):
 
             # Advance evaluate cache.
             for step_cache in self.evaluate_cache.values():
-                steps = sorted(step_cache.keys())
-                for step in steps:
+                old_cache = step_cache.copy()
+                step_cache.clear()
+                for step, cache in old_cache.items():
                     if step is None:
                         # Special caches with possible custom advance()
                         # function.
-                        for key, val in step_cache[step].items():
+                        for key, val in cache.items():
                             if hasattr(val, '__advance__'):
                                 val.__advance__(ts, val)
 
-                    elif -step < self.history:
-                        step_cache[step-1] = step_cache[step]
+                        step_cache[step] = cache
 
-                if len(steps) and (steps[0] is not None):
-                    step_cache.pop(steps[-1])
+                    elif shift_caches and (-step < self.history):
+                        step_cache[step-1] = cache
 
     def init_data(self, step=0):
         """
@@ -1520,6 +1523,7 @@ class FieldVariable(Variable):
         self.indx = slice(0, len(data))
 
         self.data[-step] = data
+        self.invalidate_evaluate_cache(step=step)
 
     def set_from_mesh_vertices(self, data):
         """
@@ -1664,11 +1668,23 @@ class FieldVariable(Variable):
         by `step`  (0 is current, -1 previous, ...).
 
         This should be done, for example, prior to every nonlinear
-        solver iteration.
+        solver iteration. If `step` is None, the data of all time steps are
+        invalidated. The special caches are always preserved.
+
+        The data of time step `step + 1` are invalidated as well, because the
+        time derivatives depend on the previous time step data.
         """
+        if step is not None:
+            steps = [step, step + 1]
+            if (step == 0) and (self.step == 0):
+                # The current data are used as the previous data in step 0.
+                steps.append(-1)
+
         for step_cache in self.evaluate_cache.values():
             for key in list(step_cache.keys()):
-                if key == step: # Given time step to clear.
+                if key is None: continue
+
+                if (step is None) or (key in steps): # Steps to clear.
                     step_cache.pop(key)
 
     def evaluate(self, mode='val',
@@ -1746,6 +1762,9 @@ class FieldVariable(Variable):
         geo, _, key = field.get_mapping(region, integral, integration,
                                         return_key=True)
         key += (time_derivative, trace_region)
+        if time_derivative is not None:
+            # The time derivatives depend on the time step.
+            key += (get_default(dt, self.dt),)
 
         dct = ('cell' if integration == 'facet_extra' else integration,
                region.tdim)
-- 
2.43.0


From aceb463543d69e7b083134bc4e40259ab68b8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 14/95] fix: evaluate multilinear terms using actual operands

The DOFs cache ignored the requested time step, the time step size and the
integration type, the cache of transposed operands could return operands of
other objects or terms.
---
 sfepy/terms/terms_mass.py        |  2 +-
 sfepy/terms/terms_multilinear.py | 51 ++++++++++++++------------------
 2 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/sfepy/terms/terms_mass.py b/sfepy/terms/terms_mass.py
index 3a73fe3..2b373a6 100644
--- a/sfepy/terms/terms_mass.py
+++ b/sfepy/terms/terms_mass.py
@@ -123,7 +123,7 @@ class MassTerm(ETermBase):
             if diff_var is None:
                 earg = self.einfos[None].eargs[2]
                 step_cache = earg.arg.evaluate_cache.setdefault('dofs', {})
-                cache = step_cache.setdefault(0, {})
+                cache = step_cache.setdefault(self.arg_steps[state.name], {})
                 dofs = earg.get_dofs(cache, step_cache, state.name + '.dofs')
                 dofs = dofs.reshape((sh[0], sh[2])) # Does a copy!
 
diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 43732bd..37b672a 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -212,18 +212,23 @@ class ExpressionArg(Struct):
     def get_dofs(self, cache, expr_cache, oname):
         if self.kind != 'state': return
 
-        key = (self.name, self.term.region.name,
-               self.term.arg_derivatives[self.name])
+        arg = self.arg
+        derivative = self.term.arg_derivatives[self.name]
+        conn_type = self.term.get_dof_conn_type(self.name)
+        key = (self.name, self.term.region.name, conn_type, derivative)
+        if derivative is not None:
+            # The time derivatives depend on the time step.
+            key += (arg.dt,)
+
         dofs = cache.get(key)
         if dofs is None:
-            arg = self.arg
-            dofs_vec = self.arg(derivative=key[-1])
+            dofs_vec = arg(step=self.term.arg_steps[self.name],
+                           derivative=derivative)
             dofs_vec = dofs_vec.reshape((-1, arg.n_components))
             # # axis 0: cells, axis 1: node, axis 2: component
             # dofs = dofs_vec[conn]
             # axis 0: cells, axis 1: component, axis 2: node
-            conn = arg.field.get_econn(self.term.get_dof_conn_type(arg.name),
-                                       self.term.region)
+            conn = arg.field.get_econn(conn_type, self.term.region)
             dofs = dofs_vec[conn].transpose((0, 2, 1))
             if arg.n_components == 1:
                 dofs.shape = (dofs.shape[0], -1)
@@ -250,18 +255,12 @@ class ExpressionArg(Struct):
         else:
             bf = ag.bf
 
-        key = 'bf{}'.format(id(bf))
-        _bf  = expr_cache.get(key)
-
-        if cell_dependent:
-            if _bf is None:
-                _bf = bf[:, :, 0]
-                expr_cache[key] = _bf
-
-        else:
-            if _bf is None:
-                _bf = bf[0, :, 0]
-                expr_cache[key] = _bf
+        # Keep bf in the cache, id is unique only during object lifetime.
+        key = 'bf {}'.format(self.name)
+        cached, _bf = expr_cache.get(key, (None, None))
+        if cached is not bf:
+            _bf = bf[:, :, 0] if cell_dependent else bf[0, :, 0]
+            expr_cache[key] = (bf, _bf)
 
         return _bf
 
@@ -612,17 +611,13 @@ class ExpressionBuilder(Struct):
 
                 else:
                     new_subs = ''.join([subs[ii] for ii in inew])
-                    if val_name == 'dofs':
-                        key = (oname,) + tuple(inew)
-
-                    else:
-                        # id is unique only during object lifetime!
-                        key = (id(op),) + tuple(inew)
-
-                    new_op = self.cache.get(key)
-                    if new_op is None:
+                    # Keep op in the cache, id is unique only during object
+                    # lifetime.
+                    key = (oname,) + tuple(inew)
+                    cached, new_op = self.cache.get(key, (None, None))
+                    if cached is not op:
                         new_op = op.transpose(inew).copy()
-                        self.cache[key] = new_op
+                        self.cache[key] = (op, new_op)
 
                     new_subscripts[ia][io] = new_subs
                     new_operands[ia][io] = new_op
-- 
2.43.0


From 8b381c3c31e8f085fcec4954a4f94831249ffa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 15/95] fix: compute stress of the actual state in hyperelastic
 tangent matrices

---
 sfepy/terms/terms_hyperelastic_base.py | 12 +-----------
 sfepy/terms/terms_hyperelastic_tl.py   |  7 +------
 sfepy/terms/terms_hyperelastic_ul.py   |  7 +------
 3 files changed, 3 insertions(+), 23 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 2a9df7a..5c4998f 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -153,11 +153,6 @@ class HyperElasticBase(Term):
     def function(out, fun, *args):
         return fun(out, *args)
 
-    def __init__(self, *args, **kwargs):
-        Term.__init__(self, *args, **kwargs)
-
-        self.stress_cache = None
-
     def compute_stress(self, mat, family_data, **kwargs):
         out = nm.empty_like(family_data.green_strain)
 
@@ -193,18 +188,13 @@ class HyperElasticBase(Term):
                                   self.arg_derivatives[name])
 
         if mode == 'weak':
+            stress = self.compute_stress(mat, fd, **kwargs)
             if diff_var is None:
-                stress = self.compute_stress(mat, fd, **kwargs)
-                self.stress_cache = stress
                 tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                 fmode = 0
 
             else:
-                stress = self.stress_cache
-                if stress is None:
-                    stress = self.compute_stress(mat, fd, **kwargs)
-
                 tan_mod = self.compute_tan_mod(mat, fd, **kwargs)
                 fmode = 1
 
diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 40371db..cb13aed 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -644,18 +644,13 @@ class BulkPressureTLTerm(HyperElasticTLBase):
 
         if mode == 'weak':
             if diff_var != state_p.name:
+                stress = self.compute_data(fd, 0, **kwargs)
                 if diff_var is None:
-                    stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
-                        stress = self.compute_data(fd, 0, **kwargs)
-
                     tan_mod = self.compute_data(fd, 1, **kwargs)
                     fmode = 1
 
diff --git a/sfepy/terms/terms_hyperelastic_ul.py b/sfepy/terms/terms_hyperelastic_ul.py
index dbec72d..4964a6d 100644
--- a/sfepy/terms/terms_hyperelastic_ul.py
+++ b/sfepy/terms/terms_hyperelastic_ul.py
@@ -151,18 +151,13 @@ class BulkPressureULTerm(HyperElasticULBase):
 
         if mode == 'weak':
             if diff_var != state_p.name:
+                stress = self.compute_data(fd, 0, **kwargs)
                 if diff_var is None:
-                    stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
-                        stress = self.compute_data(fd, 0, **kwargs)
-
                     tan_mod = self.compute_data(fd, 1, **kwargs)
                     fmode = 1
 
-- 
2.43.0


From 15a0fadd3c95149b06c596b726b0f0cd4a09e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 16/95] fix: honour store_micro_idxs and compute_only in
 chunked homogenization

---
 sfepy/homogenization/engine.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 87ba697..6205193 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -72,6 +72,9 @@ def chunk_req_info(name, req_info):
         if len(reqs) > 0:
             out['requires'] = [k + ctag for k in reqs]
 
+        # Chunk-specific data.
+        out.update(req_info.get(name, {}))
+
         return out
     else:
         return req_info[name]
@@ -436,13 +439,21 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
         """
         dependencies = multiproc.get_dict('dependencies', clear=True)
 
+        compute_only = options.compute_only
         if micro_states is not None and chunk_size is not None:
             micro_chunk_tab, req_info_ch, coef_info_ch = \
                 self.chunk_micro_tasks(len(micro_states['coors']),
                                        req_info, coef_info,
                                        chunk_size, store_micro_idxs)
+            req_info = {**req_info, **req_info_ch}
+            if compute_only is not None:
+                compute_only = [f'{k}|ch:{ii}' for k in compute_only
+                                for ii in range(len(micro_chunk_tab))]
         else:
             micro_chunk_tab = None
+            if micro_states is not None:
+                req_info = {k: {**v, 'store_idxs': (store_micro_idxs, 0)}
+                            for k, v in req_info.items()}
             req_info_ch, coef_info_ch = req_info, coef_info
 
         workers = multiproc.get_workers()
@@ -456,7 +467,7 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
                        dependencies, micro_states, time_tag, micro_chunk_tab)
 
         sorted_names = self.get_sorted_dependencies(req_info_ch, coef_info_ch,
-                                                    options.compute_only)
+                                                    compute_only)
 
         # calculate number of dependencies and inverse map
         numdeps = {}
@@ -474,7 +485,7 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
                     else:
                         inverse_deps[req] = [name]
 
-        save_names = {}
+        all_save_names = {}
         remaining = len(sorted_names)
 
         while remaining > 0:
@@ -484,7 +495,7 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
 
             for task, (dep, snames) in zip(tasks, workers.map(wfun, tasks)):
                 dependencies[task] = dep
-                save_names.update(snames)
+                all_save_names[task] = snames
 
                 if task in inverse_deps:
                     for itask in inverse_deps[task]:
@@ -492,11 +503,18 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
 
                 remaining -= 1
 
+        save_names = {}
         if micro_chunk_tab is not None:
             dependencies = self.dechunk_reqs_coefs(dependencies,
                                                    len(micro_chunk_tab))
+            for dep in dependencies.keys():
+                for ii in range(len(micro_chunk_tab)):
+                    for k, v in all_save_names[f'{dep}|ch:{ii}'].items():
+                        save_names.setdefault(rm_chtag(k), []).extend(v)
         else:
             dependencies = dependencies.copy()
+            for snames in all_save_names.values():
+                save_names.update(snames)
 
         return dependencies, save_names
 
-- 
2.43.0


From 0ce085ae0044d7a9aec7ce4a424fd6a1902c5398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 17/95] fix: pass macroscopic data and mesh_eps to
 homogenization workers

---
 sfepy/discrete/problem.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 7f6b308..7f231c7 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -205,11 +205,7 @@ class Problem(Struct):
             if conf.options.get('ulf', False):
                 domain.mesh.coors_act = domain.mesh.coors.copy()
 
-            if conf.options.get('mesh_eps') is not None:
-                import sfepy.discrete.fem.mesh as msh
-                import sfepy.discrete.fem.periodic as per
-                msh.set_accuracy(conf.options.mesh_eps)
-                per.set_accuracy(conf.options.mesh_eps)
+            Problem._set_mesh_accuracy(conf.options)
 
         elif conf.get('filename_domain') is not None:
             from sfepy.discrete.iga.domain import IGDomain
@@ -286,14 +282,26 @@ class Problem(Struct):
         )
 
         if unpickle:
+            self._set_mesh_accuracy(self.conf.options)
             self.set_fields(conf.fields)
             if hasattr(conf, 'equations'):
                 self.set_equations(conf.equations)
             self.set_conf_solvers(conf.solvers, conf.options)
 
+    @staticmethod
+    def _set_mesh_accuracy(options):
+        if options.get('mesh_eps') is not None:
+            import sfepy.discrete.fem.mesh as msh
+            import sfepy.discrete.fem.periodic as per
+            msh.set_accuracy(options.mesh_eps)
+            per.set_accuracy(options.mesh_eps)
+
     def __reduce__(self):
+        state = {key: self.__dict__[key]
+                 for key in ['homogenization_macro_data']
+                 if key in self.__dict__}
         return (Problem, (self.name, self.conf, self.functions, self.domain,
-                          None, None, False, self.active_only, True))
+                          None, None, False, self.active_only, True), state)
 
     def reset(self):
         if hasattr(self.conf, 'options'):
-- 
2.43.0


From aa47f0f8301e17b0c198f1f8307e56f01f457cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 18/95] fix: keep periodic matching and reference mappings
 among parallel homogenization calls

---
 sfepy/homogenization/engine.py | 37 +++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 6205193..8107cbd 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -357,17 +357,21 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
 
         problem, dependencies = args[0], args[5]
 
-        for dk in dependencies.keys():
-            if isinstance(dk, tuple):
-                if dk[0] == 'periodic_cache':
-                    if dk[1] not in per.periodic_cache:
-                        per.periodic_cache[dk[1]] = dependencies[dk]
-                elif dk[0] == 'mappings0':
-                    if dk[2] not in problem.fields[dk[1]].mappings0:
-                        problem.fields[dk[1]].mappings0[dk[2]] = dk[3]
+        # The matching of periodic nodes and the reference mappings computed
+        # so far.
+        per.periodic_cache.clear()
+        HomogenizationWorkerMulti.load_caches(problem, dependencies)
 
         out = HomogenizationWorker.calculate_req(*new_args)
 
+        HomogenizationWorkerMulti.save_caches(problem, dependencies)
+
+        return out
+
+    @staticmethod
+    def save_caches(problem, dependencies):
+        import sfepy.discrete.fem.periodic as per
+
         for k, v in per.periodic_cache.items():
             dkey = ('periodic_cache', k)
             if dkey not in dependencies:
@@ -375,11 +379,20 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
 
         for fk, fv in problem.fields.items():
             for mk, mv in fv.mappings0.items():
-                dkey = ('mappings0', fk, mk, mv)
+                dkey = ('mappings0', fk, mk)
                 if dkey not in dependencies:
                     dependencies[dkey] = mv
 
-        return out
+    @staticmethod
+    def load_caches(problem, dependencies):
+        import sfepy.discrete.fem.periodic as per
+
+        for dk in dependencies.keys():
+            if isinstance(dk, tuple):
+                if dk[0] == 'periodic_cache':
+                    per.periodic_cache[dk[1]] = dependencies[dk]
+                elif dk[0] == 'mappings0':
+                    problem.fields[dk[1]].mappings0[dk[2]] = dependencies[dk]
 
     @staticmethod
     def recover_req(*args):
@@ -438,6 +451,7 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
         The same returns as :class:`HomogenizationWorker`.
         """
         dependencies = multiproc.get_dict('dependencies', clear=True)
+        self.save_caches(problem, dependencies)
 
         compute_only = options.compute_only
         if micro_states is not None and chunk_size is not None:
@@ -503,6 +517,9 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
 
                 remaining -= 1
 
+        # The workers get a new copy of the problem in each call.
+        self.load_caches(problem, dependencies)
+
         save_names = {}
         if micro_chunk_tab is not None:
             dependencies = self.dechunk_reqs_coefs(dependencies,
-- 
2.43.0


From aef7f672085d841cda8c68682dabb4b86af66ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 19/95] fix: use the given correctors in parallel recovery

---
 sfepy/homogenization/engine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 8107cbd..5cd96a3 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -415,13 +415,12 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
 
     @staticmethod
     def recover_micro(problem, corrs, rhook, macro_data):
-        dependencies = multiproc.get_dict('dependencies')
-        dependencies.update({k: v for k, v in corrs.items()
-                             if k not in dependencies})
+        dependencies = multiproc.get_dict('dependencies', clear=True)
+        dependencies.update(corrs)
 
         workers = multiproc.get_workers()
         if workers is None:
-            conf_file_dir = osp.split(problem.conf.__file__)[0]
+            conf_file_dir = osp.split(problem.conf._filename)[0]
             max_workers = problem.conf.options.get('max_workers', None)
             workers = multiproc.init_workers(conf_file_dir, max_workers)
 
-- 
2.43.0


From 3f20be191272e00b1c4d4231ab607d5179f787a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 20/95] fix: do not use saved matching of periodic nodes of
 another mesh

---
 sfepy/discrete/fem/periodic.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/fem/periodic.py b/sfepy/discrete/fem/periodic.py
index fa7c6a7..081548c 100644
--- a/sfepy/discrete/fem/periodic.py
+++ b/sfepy/discrete/fem/periodic.py
@@ -10,6 +10,14 @@ eps = 1e-9
 def set_accuracy(eps):
     globals()['eps'] = eps
 
+def is_periodic(coors1, coors2):
+    """
+    Check that the matched coordinates differ just by a shift, as it is in both
+    undeformed and deformed periodic configurations.
+    """
+    diff = coors1 - coors2
+    return nm.all(nm.abs(diff - diff[:1]) < eps)
+
 ##
 # c: 18.10.2006, r: 05.05.2008
 def match_grid_line(coors1, coors2, which, get_saved=True):
@@ -21,15 +29,19 @@ def match_grid_line(coors1, coors2, which, get_saved=True):
               % (coors1.shape, coors2.shape))
 
     key = coors1.shape + ('line', which)
-    if key in periodic_cache and get_saved:
-        return periodic_cache[key]
+    c1 = coors1[:,which]
+    c2 = coors2[:,which]
+    saved = periodic_cache.get(key) if get_saved else None
+    if saved is not None and is_periodic(c1[saved[0]], c2[saved[1]]):
+        return saved
     else:
-        c1 = coors1[:,which]
-        c2 = coors2[:,which]
         i1 = nm.argsort(c1)
         i2 = nm.argsort(c2)
 
         if not nm.all(nm.abs(c1[i1] - c2[i2]) < eps):
+            if saved is not None:
+                return saved
+
             print(c1[i1])
             print(c2[i2])
             print(nm.abs(c1[i1] - c2[i2]).max())
@@ -60,8 +72,9 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
 
     key_dir = None if direction is None else tuple(direction)
     key = coors1.shape + ('dir', key_dir)
-    if key in periodic_cache and get_saved:
-        return periodic_cache[key]
+    saved = periodic_cache.get(key) if get_saved else None
+    if saved is not None and is_periodic(coors1[saved[0]], coors2[saved[1]]):
+        return saved
     else:
         aux = coors2.copy()
         if direction is not None:
@@ -73,6 +86,9 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
                                   axis=1)
             idx = nm.where(dist < eps)[0]
             if len(idx) < 1:
+                if saved is not None:
+                    return saved
+
                 print(direction)
                 print(dist)
                 raise ValueError('cannot match nodes!')
@@ -82,6 +98,9 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
         i1, i2 = find_map(coors1, aux, join=False)
 
         if i1.shape[0] != coors1.shape[0]:
+            if saved is not None:
+                return saved
+
             print(direction)
             print(coors1[i1])
             print(coors2[i2])
-- 
2.43.0


From d62dd4c3cd1cf28a19326ea588e8afb4020e20be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 21/95] fix: use new workers and shared data after a failed
 parallel homogenization

---
 sfepy/homogenization/engine.py    |  4 ++--
 sfepy/homogenization/multiproc.py | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 5cd96a3..5184598 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -429,7 +429,7 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
         wfun = partial(HomogenizationWorkerMulti.rhook_call,
                        problem, dependencies, rhook)
 
-        out = [k for k in workers.map(wfun, macro_data)]
+        out = [k for k in multiproc.map_workers(wfun, macro_data)]
 
         return out
 
@@ -506,7 +506,7 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
                 tasks = [k for k, v in numdeps.items() if v == 0]
                 numdeps = {k: v for k, v in numdeps.items() if v > 0}
 
-            for task, (dep, snames) in zip(tasks, workers.map(wfun, tasks)):
+            for task, (dep, snames) in zip(tasks, multiproc.map_workers(wfun, tasks)):
                 dependencies[task] = dep
                 all_save_names[task] = snames
 
diff --git a/sfepy/homogenization/multiproc.py b/sfepy/homogenization/multiproc.py
index 4429542..72428bc 100644
--- a/sfepy/homogenization/multiproc.py
+++ b/sfepy/homogenization/multiproc.py
@@ -6,7 +6,7 @@ import sys
 try:
     from multiprocessing import (Manager, cpu_count,
         current_process, set_start_method)
-    from concurrent.futures import ProcessPoolExecutor
+    from concurrent.futures import ProcessPoolExecutor, BrokenExecutor
 
     if not current_process().name.startswith('HomogeniationWorkerProcess'):
         set_start_method('spawn')
@@ -27,11 +27,11 @@ if use_multiprocessing:
 
 
 def get_dict(name, clear=False):
-    if name in multiproc_dict:
+    if name in multiproc_dict and not clear:
         out = multiproc_dict[name]
-        if clear:
-            out.clear()
     else:
+        # Do not clear the old dict - it might still be used by tasks that
+        # were running when a previous computation failed.
         out = multiproc_dict[name] = multiproc_manager.dict()
 
     return out
@@ -41,6 +41,16 @@ def get_workers():
     return active_workers['pool']
 
 
+def map_workers(fun, args):
+    try:
+        yield from get_workers().map(fun, args)
+
+    except BrokenExecutor:
+        # A worker died - new workers have to be started next time.
+        active_workers['pool'] = None
+        raise
+
+
 def get_proc_id():
     return current_process().name
 
-- 
2.43.0


From 42919f765ccb84be54da5d84ab88d4beecd4d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 22/95] fix: do not modify homogenization definitions in engine
 calls

---
 sfepy/homogenization/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 5184598..52faf8d 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -674,7 +674,7 @@ class HomogenizationEngine(PDESolverApp):
 
         for cf in coef_info.values():
             if 'requires' in cf:
-                cf['requires'] += vcfkeys
+                cf['requires'] = cf['requires'] + vcfkeys
             else:
                 cf['requires'] = vcfkeys
 
@@ -697,7 +697,9 @@ class HomogenizationEngine(PDESolverApp):
         # Some coefficients can require other coefficients - resolve their
         # order here.
         req_info = getattr(self.conf, opts.requirements, {})
+        req_info = {k: copy(v) for k, v in req_info.items()}
         coef_info = getattr(self.conf, opts.coefs, {})
+        coef_info = {k: copy(v) for k, v in coef_info.items()}
         coef_info = self.define_volume_coef(coef_info, self.volumes)
 
         is_store_filenames = coef_info.pop('filenames', None) is not None
-- 
2.43.0


From ed95884cf5f6ecec7b36d44b04072ee5313eaf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 23/95] fix: call the called application instance instead of
 the last created one

---
 sfepy/applications/application.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sfepy/applications/application.py b/sfepy/applications/application.py
index c855cab..ee3cb93 100644
--- a/sfepy/applications/application.py
+++ b/sfepy/applications/application.py
@@ -1,4 +1,4 @@
-from sfepy.base.base import Struct, output, insert_as_static_method
+from sfepy.base.base import Struct, output
 
 class Application(Struct):
     """
@@ -23,7 +23,10 @@ class Application(Struct):
         """
         This is either call_basic() or call_parametrized().
         """
-        pass
+        if self.parametric_hook is None:
+            return self.call_basic(**kwargs)
+
+        return self.call_parametrized(**kwargs)
 
     def call_basic(self, **kwargs):
         return self.call(**kwargs)
@@ -59,8 +62,6 @@ class Application(Struct):
         Remove parametric_hook, restore __call__() to call_basic().
         """
         self.parametric_hook = None
-        insert_as_static_method(self.__class__, '__call__',
-                                self.call_basic)
 
     def parametrize(self, parametric_hook):
         """
@@ -69,5 +70,3 @@ class Application(Struct):
         if parametric_hook is None: return
 
         self.parametric_hook = parametric_hook
-        insert_as_static_method(self.__class__, '__call__',
-                                self.call_parametrized)
-- 
2.43.0


From 1262c3e5cd8bb0e34a1e1058b51c8bb36c9e87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 24/95] fix: keep matching of periodic nodes of several meshes

---
 sfepy/discrete/fem/periodic.py | 36 ++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/sfepy/discrete/fem/periodic.py b/sfepy/discrete/fem/periodic.py
index 081548c..5d080a2 100644
--- a/sfepy/discrete/fem/periodic.py
+++ b/sfepy/discrete/fem/periodic.py
@@ -10,13 +10,27 @@ eps = 1e-9
 def set_accuracy(eps):
     globals()['eps'] = eps
 
-def is_periodic(coors1, coors2):
+def get_saved_matching(key, coors1, coors2):
     """
-    Check that the matched coordinates differ just by a shift, as it is in both
+    Get the saved matching with `key` that fits best the given coordinates.
+
+    The matched coordinates should differ just by a shift, as it is in both
     undeformed and deformed periodic configurations.
     """
-    diff = coors1 - coors2
-    return nm.all(nm.abs(diff - diff[:1]) < eps)
+    saved, error = None, nm.inf
+    for (skey, _), (i1, i2) in periodic_cache.items():
+        if skey != key: continue
+
+        diff = coors1[i1] - coors2[i2]
+        serror = nm.abs(diff - diff[:1]).max()
+        if (saved is None) or (serror < error):
+            saved, error = (i1, i2), serror
+
+    return saved, error < eps
+
+def save_matching(key, i1, i2):
+    # There can be several meshes with the same numbers of nodes.
+    periodic_cache[(key, i1.tobytes() + i2.tobytes())] = (i1, i2)
 
 ##
 # c: 18.10.2006, r: 05.05.2008
@@ -31,8 +45,9 @@ def match_grid_line(coors1, coors2, which, get_saved=True):
     key = coors1.shape + ('line', which)
     c1 = coors1[:,which]
     c2 = coors2[:,which]
-    saved = periodic_cache.get(key) if get_saved else None
-    if saved is not None and is_periodic(c1[saved[0]], c2[saved[1]]):
+    saved, is_valid = (get_saved_matching(key, c1, c2) if get_saved
+                       else (None, False))
+    if is_valid:
         return saved
     else:
         i1 = nm.argsort(c1)
@@ -47,7 +62,7 @@ def match_grid_line(coors1, coors2, which, get_saved=True):
             print(nm.abs(c1[i1] - c2[i2]).max())
             raise ValueError('cannot match nodes!')
 
-        periodic_cache[key] = (i1, i2)
+        save_matching(key, i1, i2)
 
         return i1, i2
 
@@ -72,8 +87,9 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
 
     key_dir = None if direction is None else tuple(direction)
     key = coors1.shape + ('dir', key_dir)
-    saved = periodic_cache.get(key) if get_saved else None
-    if saved is not None and is_periodic(coors1[saved[0]], coors2[saved[1]]):
+    saved, is_valid = (get_saved_matching(key, coors1, coors2) if get_saved
+                       else (None, False))
+    if is_valid:
         return saved
     else:
         aux = coors2.copy()
@@ -110,7 +126,7 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
             print(coors2[ii])
             raise ValueError('cannot match nodes!')
 
-        periodic_cache[key] = (i1, i2)
+        save_matching(key, i1, i2)
 
         return i1, i2
 
-- 
2.43.0


From a2a6e922dec72e2aa08ce3a447b024461b896ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 25/95] fix: replace restart files atomically, report errors of
 their writing

---
 sfepy/discrete/problem.py | 61 ++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 7f231c7..713a3b1 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -2115,34 +2115,43 @@ class Problem(Struct):
         if ts is None:
             ts = self.get_default_ts()
 
-        fd = pt.open_file(filename, mode='w', title='SfePy restart file')
+        # Create the file contents in memory: errors during closing of HDF5 files
+        # are not reported and an incomplete file must not replace a good one.
+        with pt.open_file(filename, mode='w', title='SfePy restart file',
+                          driver='H5FD_CORE',
+                          driver_core_backing_store=0) as fd:
+            tgroup = fd.create_group('/', 'ts', 'ts')
+            for key, val in ts.get_state().items():
+                fd.create_array(tgroup, key, val, key)
+
+            variables = self.get_variables()
+            if variables.r_vec is not None:
+                fd.create_array('/', 'r_vec', variables.r_vec,
+                                'reduced state vector')
 
-        tgroup = fd.create_group('/', 'ts', 'ts')
-        for key, val in ts.get_state().items():
-            fd.create_array(tgroup, key, val, key)
+            for var in variables.iter_state():
+                vgroup = fd.create_group('/', var.name, var.name)
 
-        variables = self.get_variables()
-        if variables.r_vec is not None:
-            fd.create_array('/', 'r_vec', variables.r_vec,
-                            'reduced state vector')
-
-        for var in variables.iter_state():
-            vgroup = fd.create_group('/', var.name, var.name)
-
-            # The history is incomplete in the initial time steps.
-            history_length = 1
-            while ((history_length < len(var.data))
-                   and ((var.data[history_length] is not None)
-                        or ((history_length == 1) and (var.step == 0)))):
-                history_length += 1
-
-            fd.create_array(vgroup, 'history_length', history_length,
-                            'history length')
-            for ii in range(history_length):
-                data = var(step=-ii)
-                fd.create_array(vgroup, 'data_%d' % ii, data, 'data')
-
-        fd.close()
+                # The history is incomplete in the initial time steps.
+                history_length = 1
+                while ((history_length < len(var.data))
+                       and ((var.data[history_length] is not None)
+                            or ((history_length == 1) and (var.step == 0)))):
+                    history_length += 1
+
+                fd.create_array(vgroup, 'history_length', history_length,
+                                'history length')
+                for ii in range(history_length):
+                    data = var(step=-ii)
+                    fd.create_array(vgroup, 'data_%d' % ii, data, 'data')
+
+            image = fd.get_file_image()
+
+        tmp_filename = filename + '.tmp'
+        with open(tmp_filename, 'wb') as fd:
+            fd.write(image)
+
+        os.replace(tmp_filename, filename)
 
         mode = self.conf.options.get('save_restart', None)
 
-- 
2.43.0


From 9d58ca0e0f9052b1980295b4006f7d4f93bfadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 26/95] fix: read logs with commas or colons in labels or with
 an incomplete last line

---
 sfepy/base/log.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index 212972e..b89590f 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -1,5 +1,6 @@
 import time
 import os
+import re
 import atexit
 
 try:
@@ -81,9 +82,16 @@ def read_log(filename):
     info = {}
     name2key = {}
 
+    re_labels = re.compile('#     xlabel: "(.*)", ylabel: "(.*)",'
+                           ' yscales: "(.*)"')
+
     fd = open(filename, 'r')
 
     for line in fd:
+        if not line.endswith('\n'):
+            # An item not completely written.
+            break
+
         if line[0] == '#':
             ls = line.split(':')
             if ls[0] == '# groups':
@@ -92,10 +100,12 @@ def read_log(filename):
                 for ig in range(n_gr):
                     next(fd)
                     line_info = next(fd)
-                    xlabel, ylabel, yscales = line_info.split(',')
+                    # The labels can contain any characters.
+                    match = re_labels.match(line_info)
+                    xlabel, ylabel, yscales = match.groups()
 
                     line_names = next(fd)
-                    names = line_names.split(':')[1]
+                    names = line_names.split(':', 1)[1]
                     names = [name.strip().strip('"')
                              for name in names.split(',')]
                     if len(names[0]) == 0:
@@ -105,11 +115,7 @@ def read_log(filename):
                     aux = line_plot_kwargs[19:].strip().strip('"')
                     plot_kwargs = eval(aux + ',') if len(aux) else ({},)
 
-                    info[ig] = (xlabel.split(':')[1].strip().strip('"'),
-                                ylabel.split(':')[1].strip().strip('"'),
-                                yscales.split(':')[1].strip().strip('"'),
-                                names,
-                                plot_kwargs)
+                    info[ig] = (xlabel, ylabel, yscales, names, plot_kwargs)
 
                     name2key.update({name : ik + offset
                                      for ik, name in enumerate(info[ig][3])})
-- 
2.43.0


From c80905316e3823bf5402b3075f743ffbbcbfc332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 27/95] fix: do not log partially when called with invalid
 arguments

---
 sfepy/base/log.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index b89590f..276b37b 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -500,6 +500,18 @@ class Log(Struct):
             msg = 'log called with wrong number of arguments! (%d == %d)' % ls
             raise IndexError(msg)
 
+        # Check the arguments before modifying anything.
+        items = []
+        for ig, ip, ii, iseq, name in iter_names(self.data_names, igs):
+            aux = args[iseq]
+            if isinstance(aux, nm.ndarray):
+                aux = nm.array(aux, ndmin = 1)
+                if len(aux) == 1:
+                    aux = aux[0]
+                else:
+                    raise ValueError('can log only scalars (%s)' % aux)
+            items.append((ig, ii, aux))
+
         for ig in igs:
             if (x_values is not None) and (x_values[ig] is not None):
                 self.x_values[ig].append(x_values[ig])
@@ -510,14 +522,7 @@ class Log(Struct):
                     ii = 0
                 self.x_values[ig].append(ii)
 
-        for ig, ip, ii, iseq, name in iter_names(self.data_names, igs):
-            aux = args[iseq]
-            if isinstance(aux, nm.ndarray):
-                aux = nm.array(aux, ndmin = 1)
-                if len(aux) == 1:
-                    aux = aux[0]
-                else:
-                    raise ValueError('can log only scalars (%s)' % aux)
+        for ig, ii, aux in items:
             self.data[ii].append(aux)
 
             if self.output:
-- 
2.43.0


From f2a0cc30149a57260d3c15c54800e6d88db54207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 28/95] fix: write text logs also when messages are turned off

---
 sfepy/base/log.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index 276b37b..7c9f907 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -2,6 +2,7 @@ import time
 import os
 import re
 import atexit
+from functools import partial
 
 try:
     import multiprocessing as mp
@@ -407,7 +408,9 @@ class Log(Struct):
         self.can_plot = (mpl is not None) and (mp is not None)
 
         if log_filename is not None:
-            self.output = Output('', filename=log_filename)
+            # The log data are always written, also when messages are off.
+            self.output = partial(Output('', filename=log_filename),
+                                  verbose=True)
             _write_header(self.output, xlabels, ylabels, yscales, data_names,
                           self.plot_kwargs)
 
-- 
2.43.0


From 70340767b01e316c2c66aacbd355dd90b357ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 29/95] fix: terminate logs without live plots running

---
 sfepy/base/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index 7c9f907..31a3a50 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -567,9 +567,10 @@ class Log(Struct):
             self.output('# ended: %s' % time.asctime())
             self.output = None
 
-        if self.is_plot and self.can_plot:
+        if self.plot_pipe is not None:
             self.plot_pipe.send(None)
             self.plot_process.join()
+            self.plot_pipe = None
             self.n_calls = 0
             output('terminated')
 
-- 
2.43.0


From c87842fdff54d1cb3e47efb34d50c6157018235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 30/95] fix: draw all received data before saving log figures

---
 sfepy/base/log_plotter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/base/log_plotter.py b/sfepy/base/log_plotter.py
index 52260de..04d5bbb 100644
--- a/sfepy/base/log_plotter.py
+++ b/sfepy/base/log_plotter.py
@@ -90,6 +90,9 @@ class LogPlotter(Struct):
             self.make_axes()
 
         elif command[0] == 'save':
+            # Draw all the data received so far.
+            self.clear_axes = {ig : True for ig in self.clear_axes}
+            self.apply_commands()
             self.fig.savefig(command[1])
             self.pipe.send(True) # Acknowledge save.
 
-- 
2.43.0


From 234cff391983bb95ff5d538602dea1e81113970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 31/95] fix: do not draw log data repeatedly in live plots

---
 sfepy/base/log.py         |  3 ---
 sfepy/base/log_plotter.py | 15 +++++----------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index 31a3a50..6066e14 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -579,9 +579,6 @@ class Log(Struct):
     def plot_data(self, igs):
         send = self.plot_pipe.send
 
-        for ig in igs:
-            send(['clear', ig])
-
         for ig, ip, ii, iseq, name in iter_names(self.data_names, igs):
             try:
                 send(['plot', ig, ip, self.x_values[ig][-1],
diff --git a/sfepy/base/log_plotter.py b/sfepy/base/log_plotter.py
index 04d5bbb..5fabbff 100644
--- a/sfepy/base/log_plotter.py
+++ b/sfepy/base/log_plotter.py
@@ -55,7 +55,7 @@ class LogPlotter(Struct):
     def __init__(self, aggregate=100, sleep=1.0):
         Struct.__init__(self, aggregate=aggregate, sleep=sleep,
                         xdata={}, ydata={}, plot_kwargs={},
-                        clear_axes={}, show_legends=False)
+                        show_legends=False)
 
     def process_command(self, command):
         self.output(command[0])
@@ -71,10 +71,6 @@ class LogPlotter(Struct):
             ig, x, kwargs = command[1:]
             self.vlines[ig].append((x, kwargs))
 
-        elif command[0] == 'clear':
-            ig = command[1]
-            self.clear_axes[ig] = True
-
         elif command[0] == 'legends':
             self.show_legends = True
 
@@ -91,7 +87,6 @@ class LogPlotter(Struct):
 
         elif command[0] == 'save':
             # Draw all the data received so far.
-            self.clear_axes = {ig : True for ig in self.clear_axes}
             self.apply_commands()
             self.fig.savefig(command[1])
             self.pipe.send(True) # Acknowledge save.
@@ -99,6 +94,10 @@ class LogPlotter(Struct):
     def apply_commands(self):
         from matplotlib.ticker import LogLocator, AutoLocator
 
+        # All the data are drawn again below.
+        for ax in self.ax:
+            ax.cla()
+
         for key in sorted(self.ydata.keys()):
             ig, ip = key
 
@@ -106,10 +105,6 @@ class LogPlotter(Struct):
             ydata = nm.array(self.ydata[(ig, ip)])
 
             ax = self.ax[ig]
-            if self.clear_axes[ig]:
-                ax.cla()
-                self.clear_axes[ig] = False
-
             ax.set_yscale(self.yscales[ig])
             ax.yaxis.grid(True)
             draw_data(ax, nm.array(xdata), nm.array(ydata),
-- 
2.43.0


From 185fe720093e4243d0171709cfa7c6dbc93d5a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 32/95] fix: use linear scale for log groups added with default
 arguments

---
 sfepy/base/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index 6066e14..8c5520d 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -426,6 +426,8 @@ class Log(Struct):
         if plot_kwargs is None:
             plot_kwargs = {}
 
+        yscale = get_default(yscale, 'linear')
+
         ig = self.n_gr
         self.n_gr += 1
 
-- 
2.43.0


From a060b732a09cd614e23fed872113de4e2b12075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 33/95] fix: close plotter's end of pipe in logging process

---
 sfepy/base/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index 8c5520d..980b77c 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -559,6 +559,8 @@ class Log(Struct):
                                                       self.plot_kwargs))
                 self.plot_process.daemon = True
                 self.plot_process.start()
+                # Needed to notice that the plotting process ended.
+                plotter_pipe.close()
 
             self.plot_data(igs)
 
-- 
2.43.0


From 1bcb164383d717f951a1d18374353b653af83115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 34/95] fix: close HDF5 results files after errors, do not keep
 incomplete steps

---
 sfepy/discrete/fem/meshio.py | 253 +++++++++++++++++------------------
 1 file changed, 126 insertions(+), 127 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 1a48e58..6ca7150 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1095,54 +1095,7 @@ class HDF5MeshIO(MeshIO):
             else:
                 return data
 
-        from time import asctime
-
-        if pt is None:
-            raise ValueError('pytables not imported!')
-
-        step = get_default_attr(ts, 'step', 0)
-        if (step == 0) or not op.exists(filename):
-            # A new file.
-            with pt.open_file(filename, mode="w",
-                              title="SfePy output file") as fd:
-                mesh_group = fd.create_group('/', 'mesh', 'mesh')
-                self.write_mesh_to_hdf5(fd, mesh_group, mesh, force_3d=xdmf)
-
-                if ts is not None:
-                    ts_group = fd.create_group('/', 'ts', 'time stepper')
-                    fd.create_array(ts_group, 't0', ts.t0, 'initial time')
-                    fd.create_array(ts_group, 't1', ts.t1, 'final time')
-                    fd.create_array(ts_group, 'dt', ts.dt, 'time step')
-                    fd.create_array(ts_group, 'n_step', ts.n_step, 'n_step')
-
-                tstat_group = fd.create_group('/', 'tstat',
-                                              'global time statistics')
-                fd.create_array(tstat_group, 'created', enc(asctime()),
-                                'file creation time')
-                fd.create_array(tstat_group, 'finished', enc('.' * 24),
-                                'file closing time')
-
-                fd.create_array(fd.root, 'last_step',
-                                nm.array([step], dtype=nm.int32),
-                                'last saved step')
-
-        if out is not None:
-            if ts is None:
-                step, time, nt = 0, 0.0, 0.0
-            else:
-                step, time, nt = ts.step, ts.time, ts.nt
-
-            # Existing file.
-            fd = pt.open_file(filename, mode="r+")
-
-            step_group_name = 'step%d' % step
-            if step_group_name in fd.root:
-                raise ValueError('step %d is already saved in "%s" file!'
-                                 ' Possible help: remove the old file or'
-                                 ' start saving from the initial time.'
-                                 % (step, filename))
-            step_group = fd.create_group('/', step_group_name, 'time step data')
-
+        def write_step(fd, step_group, step, time, nt):
             ts_group = fd.create_group(step_group, 'ts', 'time stepper')
             fd.create_array(ts_group, 'step', step, 'step')
             fd.create_array(ts_group, 't', time, 'time')
@@ -1192,21 +1145,77 @@ class HDF5MeshIO(MeshIO):
                 name_dict[key] = group_name
 
             step_group._v_attrs.name_dict = name_dict
-            fd.root.last_step[0] = step
 
-            fd.remove_node(fd.root.tstat.finished)
-            fd.create_array(fd.root.tstat, 'finished', enc(asctime()),
-                            'file closing time')
-            fd.close()
+        from time import asctime
+
+        if pt is None:
+            raise ValueError('pytables not imported!')
+
+        step = get_default_attr(ts, 'step', 0)
+        if (step == 0) or not op.exists(filename):
+            # A new file.
+            with pt.open_file(filename, mode="w",
+                              title="SfePy output file") as fd:
+                mesh_group = fd.create_group('/', 'mesh', 'mesh')
+                self.write_mesh_to_hdf5(fd, mesh_group, mesh, force_3d=xdmf)
+
+                if ts is not None:
+                    ts_group = fd.create_group('/', 'ts', 'time stepper')
+                    fd.create_array(ts_group, 't0', ts.t0, 'initial time')
+                    fd.create_array(ts_group, 't1', ts.t1, 'final time')
+                    fd.create_array(ts_group, 'dt', ts.dt, 'time step')
+                    fd.create_array(ts_group, 'n_step', ts.n_step, 'n_step')
+
+                tstat_group = fd.create_group('/', 'tstat',
+                                              'global time statistics')
+                fd.create_array(tstat_group, 'created', enc(asctime()),
+                                'file creation time')
+                fd.create_array(tstat_group, 'finished', enc('.' * 24),
+                                'file closing time')
+
+                fd.create_array(fd.root, 'last_step',
+                                nm.array([step], dtype=nm.int32),
+                                'last saved step')
+
+        if out is not None:
+            if ts is None:
+                step, time, nt = 0, 0.0, 0.0
+            else:
+                step, time, nt = ts.step, ts.time, ts.nt
+
+            # Existing file.
+            with pt.open_file(filename, mode="r+") as fd:
+                step_group_name = 'step%d' % step
+                if step_group_name in fd.root:
+                    raise ValueError('step %d is already saved in "%s" file!'
+                                     ' Possible help: remove the old file or'
+                                     ' start saving from the initial time.'
+                                     % (step, filename))
+                step_group = fd.create_group('/', step_group_name,
+                                             'time step data')
+
+                try:
+                    write_step(fd, step_group, step, time, nt)
+
+                except:
+                    # Do not keep incomplete step data.
+                    fd.remove_node(step_group, recursive=True)
+                    raise
+
+                fd.root.last_step[0] = step
+
+                fd.remove_node(fd.root.tstat.finished)
+                fd.create_array(fd.root.tstat, 'finished', enc(asctime()),
+                                'file closing time')
 
         if xdmf:
             self.write_xdmf_file(filename, **kwargs)
 
     def read_last_step(self, filename=None):
         filename = get_default(filename, self.filename)
-        fd = pt.open_file(filename, mode="r")
-        last_step = fd.root.last_step[0]
-        fd.close()
+        with pt.open_file(filename, mode="r") as fd:
+            last_step = fd.root.last_step[0]
+
         return last_step
 
     def read_time_stepper(self, filename=None):
@@ -1245,18 +1254,16 @@ class HDF5MeshIO(MeshIO):
             The normalized times of the time steps, in [0, 1].
         """
         filename = get_default(filename, self.filename)
-        fd = pt.open_file(filename, mode='r')
-
         steps = []
         times = []
         nts = []
-        for gr_name in self._get_step_group_names(fd):
-            ts_group = fd.get_node(fd.root, gr_name + '/ts')
+        with pt.open_file(filename, mode='r') as fd:
+            for gr_name in self._get_step_group_names(fd):
+                ts_group = fd.get_node(fd.root, gr_name + '/ts')
 
-            steps.append(ts_group.step.read())
-            times.append(ts_group.t.read())
-            nts.append(ts_group.nt.read())
-        fd.close()
+                steps.append(ts_group.step.read())
+                times.append(ts_group.t.read())
+                nts.append(ts_group.nt.read())
 
         steps = nm.asarray(steps, dtype=nm.int32)
         times = nm.asarray(times, dtype=nm.float64)
@@ -1286,41 +1293,40 @@ class HDF5MeshIO(MeshIO):
         if fd is None:
             return None
 
-        out = {}
-        for data_group in step_group:
-            try:
-                key = dec(data_group.dname.read())
+        with fd:
+            out = {}
+            for data_group in step_group:
+                try:
+                    key = dec(data_group.dname.read())
 
-            except pt.exceptions.NoSuchNodeError:
-                continue
-
-            mode = dec(data_group.mode.read())
-            if mode == 'custom':
-                out[key] = read_from_hdf5(fd, data_group.data, cache=cache)
-                continue
+                except pt.exceptions.NoSuchNodeError:
+                    continue
 
-            name = dec(data_group.name.read())
-            data = data_group.data.read()
-            dofs = tuple([dec(ic) for ic in data_group.dofs.read()])
-            try:
-                shape = tuple(int(ii) for ii in data_group.shape.read())
+                mode = dec(data_group.mode.read())
+                if mode == 'custom':
+                    out[key] = read_from_hdf5(fd, data_group.data, cache=cache)
+                    continue
 
-            except pt.exceptions.NoSuchNodeError:
-                shape = data.shape
+                name = dec(data_group.name.read())
+                data = data_group.data.read()
+                dofs = tuple([dec(ic) for ic in data_group.dofs.read()])
+                try:
+                    shape = tuple(int(ii) for ii in data_group.shape.read())
 
-            if mode == 'full':
-                field_name = dec(data_group.field_name.read())
+                except pt.exceptions.NoSuchNodeError:
+                    shape = data.shape
 
-            else:
-                field_name = None
+                if mode == 'full':
+                    field_name = dec(data_group.field_name.read())
 
-            out[key] = Struct(name=name, mode=mode, data=data,
-                              dofs=dofs, shape=shape, field_name=field_name)
+                else:
+                    field_name = None
 
-            if out[key].dofs == (-1,):
-                out[key].dofs = None
+                out[key] = Struct(name=name, mode=mode, data=data,
+                                  dofs=dofs, shape=shape, field_name=field_name)
 
-        fd.close()
+                if out[key].dofs == (-1,):
+                    out[key].dofs = None
 
         return out
 
@@ -1329,35 +1335,31 @@ class HDF5MeshIO(MeshIO):
         if fd is None:
             return None
 
-        groups = step_group._v_groups
-        for name, data_group in groups.items():
-            try:
-                key = dec(data_group.dname.read())
+        with fd:
+            groups = step_group._v_groups
+            for name, data_group in groups.items():
+                try:
+                    key = dec(data_group.dname.read())
 
-            except pt.exceptions.NoSuchNodeError:
-                continue
+                except pt.exceptions.NoSuchNodeError:
+                    continue
 
-            if key == dname:
-                mode = dec(data_group.mode.read())
-                fd.close()
-                return mode, name
+                if key == dname:
+                    mode = dec(data_group.mode.read())
+                    return mode, name
 
-        fd.close()
         raise KeyError('non-existent data: %s' % dname)
 
     def read_time_history(self, node_name, indx, filename=None):
         filename = get_default(filename, self.filename)
-        fd = pt.open_file(filename, mode="r")
-
         th = dict_from_keys_init(indx, list)
-        for gr_name in self._get_step_group_names(fd):
-            step_group = fd.get_node(fd.root, gr_name)
-            data = step_group._f_get_child(node_name).data
-
-            for ii in indx:
-                th[ii].append(nm.array(data[ii]))
+        with pt.open_file(filename, mode="r") as fd:
+            for gr_name in self._get_step_group_names(fd):
+                step_group = fd.get_node(fd.root, gr_name)
+                data = step_group._f_get_child(node_name).data
 
-        fd.close()
+                for ii in indx:
+                    th[ii].append(nm.array(data[ii]))
 
         for key, val in th.items():
             aux = nm.array(val)
@@ -1369,22 +1371,19 @@ class HDF5MeshIO(MeshIO):
 
     def read_variables_time_history(self, var_names, ts, filename=None):
         filename = get_default(filename, self.filename)
-        fd = pt.open_file(filename, mode="r")
-
-        assert_((fd.root.last_step[0] + 1) == ts.n_step)
-
-        ths = dict_from_keys_init(var_names, list)
-
-        arr = nm.asarray
-        for step in range(ts.n_step):
-            gr_name = 'step%d' % step
-            step_group = fd.get_node(fd.root, gr_name)
-            name_dict = step_group._v_attrs.name_dict
-            for var_name in var_names:
-                data = step_group._f_get_child(name_dict[var_name]).data
-                ths[var_name].append(arr(data.read()))
-
-        fd.close()
+        with pt.open_file(filename, mode="r") as fd:
+            assert_((fd.root.last_step[0] + 1) == ts.n_step)
+
+            ths = dict_from_keys_init(var_names, list)
+
+            arr = nm.asarray
+            for step in range(ts.n_step):
+                gr_name = 'step%d' % step
+                step_group = fd.get_node(fd.root, gr_name)
+                name_dict = step_group._v_attrs.name_dict
+                for var_name in var_names:
+                    data = step_group._f_get_child(name_dict[var_name]).data
+                    ths[var_name].append(arr(data.read()))
 
         return ths
 
-- 
2.43.0


From d735541152bacd41570d9f32ab977de7bbe6b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 35/95] fix: do not modify time histories in averaging, dump
 selected steps of incomplete series

---
 sfepy/postprocess/time_history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/postprocess/time_history.py b/sfepy/postprocess/time_history.py
index 26ac181..4d29fb0 100644
--- a/sfepy/postprocess/time_history.py
+++ b/sfepy/postprocess/time_history.py
@@ -66,7 +66,7 @@ def dump_to_vtk(filename, output_filename_trunk=None, step0=0, steps=None,
                         for ii in range(ii0, len(times)))
 
         else:
-            iterator = [(step, ts.times[step]) for step in steps]
+            iterator = [(step, times[all_steps == step]) for step in steps]
 
         max_step = all_steps.max()
         for step, time in iterator:
@@ -201,7 +201,7 @@ def average_vertex_var_in_cells(ths_in):
             if isinstance(data, dict):
                 for ic, ndata in data.items():
                     if aux[ir] is None:
-                        aux[ir] = ndata
+                        aux[ir] = ndata.copy()
                     else:
                         aux[ir] += ndata
                 aux[ir] /= float(len(data))
-- 
2.43.0


From 9bdead518588d8a1e91fb4b23f5b4f1110d9e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 36/95] fix: do not save time steps after a step that reached
 several saving times

---
 sfepy/discrete/problem.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 713a3b1..e349c0c 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -56,11 +56,14 @@ def make_is_save(options):
                 return True
 
             elif isinstance(self.save_times, nm.ndarray):
-                if (self.ilast < len(self.save_times)
-                    and (ts.time + (1e-14 * ts.dt)
-                         >= self.save_times[self.ilast])):
+                is_reached = False
+                while (self.ilast < len(self.save_times)
+                       and (ts.time + (1e-14 * ts.dt)
+                            >= self.save_times[self.ilast])):
                     self.ilast += 1
-                    return True
+                    is_reached = True
+
+                return is_reached
 
             elif callable(self.save_times):
                 return self.save_times(ts)
-- 
2.43.0


From 033a9954b46d5429df0d364ed217eda8e939393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 37/95] fix: do not repeat saving times reached before restart

---
 sfepy/discrete/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index e349c0c..59ec55f 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1362,6 +1362,10 @@ class Problem(Struct):
             restart_filename = self.conf.options.get('load_restart', None)
             if restart_filename is not None:
                 variables = self.load_restart(restart_filename, ts=ts)
+                if not callable(is_save.save_times):
+                    # Skip the saving times reached before the restart.
+                    is_save(ts)
+
                 if not ts.is_finished:
                     self.advance(ts)
                     ts.advance()
-- 
2.43.0


From efd4cc5121d95210aa11e3dc22f5a694001826ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 38/95] fix: extract time histories of nodal variables in
 elements

---
 sfepy/postprocess/time_history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/postprocess/time_history.py b/sfepy/postprocess/time_history.py
index 4d29fb0..d5b8a32 100644
--- a/sfepy/postprocess/time_history.py
+++ b/sfepy/postprocess/time_history.py
@@ -171,7 +171,7 @@ def extract_time_history(filename, extract, verbose=True):
             th = io.read_time_history(nname, pe.indx)
 
         elif pe.mode == 'e' and mode == 'vertex':
-            conn = mesh.conns[0]
+            conn = mesh.get_conn(mesh.descs[0])
             th = {}
             for iel in pe.indx:
                 ips = conn[iel]
-- 
2.43.0


From da05554e19f621a8b40b6433516032ee8a809723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 39/95] fix: forget the matrix digest when a non-CSR matrix is
 solved

The digest of the previous CSR matrix was kept with the factorization of
another matrix, the following solve with the CSR matrix reused it.
---
 sfepy/solvers/ls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 4f47a90..16602d9 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -46,7 +46,7 @@ def _get_cs_matrix_hash(mtx, chunk_size=100000):
 
 def _is_new_matrix(mtx, mtx_digest, force_reuse=False):
     if not isinstance(mtx, sps.csr_array):
-        return True, mtx_digest
+        return True, (None, None)
 
     if force_reuse:
         return False, mtx_digest
-- 
2.43.0


From 0320ad17e53412da1b6019f9f46ec5e2eed5a039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 40/95] fix: pass supported tolerance arguments to SciPy
 iterative solvers

minres() does not have atol, the fallback used the removed tol argument.
---
 sfepy/solvers/ls.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 16602d9..46b6974 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -1,4 +1,5 @@
 import hashlib
+import inspect
 
 import numpy as nm
 import warnings
@@ -356,14 +357,14 @@ class ScipyIterative(LinearSolver):
             if version.parse(sp.__version__) >= version.parse('1.4.0'):
                 solver_kwargs.update({'callback_type' : 'legacy'})
 
-        try:
-            sol, info = self.solver(mtx, rhs, x0=x0, atol=eps_a, rtol=eps_r,
-                                    maxiter=i_max, callback=iter_callback,
-                                    **solver_kwargs)
-        except TypeError:
-            sol, info = self.solver(mtx, rhs, x0=x0, tol=eps_r,
-                                    maxiter=i_max, callback=iter_callback,
-                                    **solver_kwargs)
+        # The names of tolerances depend on the method and SciPy version.
+        pars = inspect.signature(self.solver).parameters
+        solver_kwargs['rtol' if 'rtol' in pars else 'tol'] = eps_r
+        if 'atol' in pars:
+            solver_kwargs['atol'] = eps_a
+
+        sol, info = self.solver(mtx, rhs, x0=x0, maxiter=i_max,
+                                callback=iter_callback, **solver_kwargs)
 
         output('%s: %s convergence: %s (%s, %d iterations)'
                % (self.conf.name, self.conf.method,
-- 
2.43.0


From 199318a82cbde9ae5c3ebae4f3d10e140a65f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 41/95] fix: MUMPS solvers: matrix symmetry detection and reuse

The symmetry test compared values but not their positions and failed for
diagonal matrices. With presolve, an existing MUMPS instance was reused for
matrices of another symmetry or data type and after a failed factorization.
---
 sfepy/solvers/ls.py | 47 +++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 46b6974..5c2098c 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -883,15 +883,23 @@ class MUMPSSolver(LinearSolver):
         if idxs_l.shape[0] != idxs_u.shape[0]:
             return False
 
-        iu = nm.lexsort((row[idxs_u], col[idxs_u]))
-        il = nm.lexsort((col[idxs_l], row[idxs_l]))
+        if idxs_u.shape[0] == 0:
+            return True
 
-        err = nm.abs(data[idxs_u[iu]] - data[idxs_l[il]])
+        iu = idxs_u[nm.lexsort((row[idxs_u], col[idxs_u]))]
+        il = idxs_l[nm.lexsort((col[idxs_l], row[idxs_l]))]
+        if not (nm.array_equal(row[iu], col[il])
+                and nm.array_equal(col[iu], row[il])):
+            return False
+
+        err = nm.abs(data[iu] - data[il])
         if nm.any(err/nm.abs(data[idxs_u].max()) >= tol):
             return False
 
         return True
 
+    mumps_ls = None
+
     def __init__(self, conf, **kwargs):
         aux = try_imports(['import mumpspy as mumps', 'import mumps'],
                           'cannot import MUMPS!')
@@ -929,26 +937,27 @@ class MUMPSSolver(LinearSolver):
 
             is_sym = self.coo_is_symmetric(mtx)
 
-            if self.mumps_ls is None:
-                if self.mumps.__name__ == 'mumpspy':
-                    system = 'complex' if mtx.dtype.name.startswith('complex')\
-                        else 'real'
-                    mem_relax = self.conf.memory_relaxation
-                    self.mumps_ls = self.mumps.MumpsSolver(system=system,
-                                                           is_sym=is_sym,
-                                                           mem_relax=mem_relax)
-                    if self.conf.verbose:
-                        self.mumps_ls.set_verbose()
-                else:
-                    self.mumps_ls = self.mumps.Context(self.conf.verbose)
-
+            # The symmetry and the data type are fixed in a MUMPS instance ->
+            # always start anew. The new instance is stored only after a
+            # successful factorization.
+            self.clear()
             if self.mumps.__name__ == 'mumpspy':
-                self.mumps_ls.set_mtx(mtx, factorize=factorize)
+                system = 'complex' if mtx.dtype.name.startswith('complex')\
+                    else 'real'
+                mem_relax = self.conf.memory_relaxation
+                mumps_ls = self.mumps.MumpsSolver(system=system, is_sym=is_sym,
+                                                  mem_relax=mem_relax)
+                if self.conf.verbose:
+                    mumps_ls.set_verbose()
+
+                mumps_ls.set_mtx(mtx, factorize=factorize)
             else:
-                self.mumps_ls.set_matrix(mtx, symmetric=is_sym)
+                mumps_ls = self.mumps.Context(self.conf.verbose)
+                mumps_ls.set_matrix(mtx, symmetric=is_sym)
                 if factorize:
-                    self.mumps_ls.factor()
+                    mumps_ls.factor()
 
+            self.mumps_ls = mumps_ls
             self.mtx_digest = mtx_digest
 
     def __del__(self):
-- 
2.43.0


From a2442b68b10aa70213b1c6dadda4b24f83aa1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 42/95] fix: report errors when saving sparse matrices and
 geometries to text files

The files were not closed explicitly, so an error of the last write was
ignored. Save CSC matrices properly.
---
 sfepy/linalg/sparse.py   | 35 +++++++++++++++++------------------
 sfepy/mesh/geom_tools.py |  3 ++-
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/sfepy/linalg/sparse.py b/sfepy/linalg/sparse.py
index 5da7fa6..83af396 100644
--- a/sfepy/linalg/sparse.py
+++ b/sfepy/linalg/sparse.py
@@ -6,25 +6,24 @@ from sfepy.base.base import assert_
 
 def save_sparse_txt(filename, mtx, fmt='%d %d %f\n'):
     """Save a CSR/CSC sparse matrix into a text file"""
-    fd = open(filename, 'w')
+    with open(filename, 'w') as fd:
+        fd.write('%d %d\n' % mtx.shape)
+        fd.write('%d\n' % mtx.size)
+
+        if mtx.format == 'csr':
+            indptr, indices, data = mtx.indptr, mtx.indices, mtx.data
+            for ir in range(mtx.shape[0]):
+                for ii in range(indptr[ir], indptr[ir+1]):
+                    fd.write(fmt % (ir, indices[ii], data[ii]))
+
+        elif mtx.format == 'csc':
+            indptr, indices, data = mtx.indptr, mtx.indices, mtx.data
+            for ic in range(mtx.shape[1]):
+                for ii in range(indptr[ic], indptr[ic+1]):
+                    fd.write(fmt % (indices[ii], ic, data[ii]))
 
-    fd.write('%d %d\n' % mtx.shape)
-    fd.write('%d\n' % mtx.size)
-
-    if mtx.format == 'csr':
-        indptr, indices, data = mtx.indptr, mtx.indices, mtx.data
-        for ir in range(mtx.shape[0]):
-            for ii in range(indptr[ir], indptr[ir+1]):
-                fd.write(fmt % (ir, indices[ii], data[ii]))
-
-    elif mtx.format == 'csc':
-        indptr, indices, data = mtx.indptr, mtx.indices, mtx.data
-        for ic in range(mtx.shape[0]):
-            for ii in range(indptr[ir], indptr[ir+1]):
-                fd.write(fmt % (indices[ii], ic, data[ii]))
-
-    else:
-        raise ValueError('matrix format not supported! (%s)' % mtx.format)
+        else:
+            raise ValueError('matrix format not supported! (%s)' % mtx.format)
 
 def insert_sparse_to_csr(mtx1, mtx2, irs, ics):
     """
diff --git a/sfepy/mesh/geom_tools.py b/sfepy/mesh/geom_tools.py
index 9916731..0d34d95 100644
--- a/sfepy/mesh/geom_tools.py
+++ b/sfepy/mesh/geom_tools.py
@@ -298,7 +298,8 @@ class geometry:
             for i, x in enumerate(regions):
                 s += ptstr2 % tuple([i + 1] + list(x))
 
-        open(filename, "w").write(s)
+        with open(filename, "w") as fd:
+            fd.write(s)
 
     @staticmethod
     def from_gmsh_file(filename):
-- 
2.43.0


From 6ac0d7921886746a04c40c11348e4cca7a318c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 43/95] fix: read_list() loops forever at the end of file

---
 sfepy/base/ioutils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index 882cf76..c1edcc7 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -289,7 +289,11 @@ def read_list(fd, n_item, dtype):
     vals = []
     ii = 0
     while ii < n_item:
-        line = [dtype(ic) for ic in fd.readline().split()]
+        row = fd.readline()
+        if not row:
+            raise EOFError('list of %d items reading failed!' % n_item)
+
+        line = [dtype(ic) for ic in row.split()]
         vals.append(line)
         ii += len(line)
     if ii > n_item:
-- 
2.43.0


From 444be78d44fdd148de55d5f5dcf49f14d839628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 44/95] fix: probes.read_header() loops forever at the end of
 file

---
 sfepy/discrete/probes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 0c92b95..7a25e47 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -88,8 +88,11 @@ def read_header(fd):
 
     details = []
     while 1:
-        line = fd.readline().strip()
+        line = fd.readline()
+        if not line:
+            raise EOFError('probe data header is not complete!')
 
+        line = line.strip()
         if line == '-----':
             break
         else:
-- 
2.43.0


From 9f36ec2688197db843fdf2ef0289315cedacd358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 45/95] fix: reading incomplete mesh3d files loops forever

---
 sfepy/discrete/fem/meshio.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 6ca7150..4046aaa 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1431,9 +1431,7 @@ class Mesh3DMeshIO(MeshIO):
         """
         Reads one non empty line (if it's a comment, it skips it).
         """
-        l = f.readline().strip()
-        while l == "" or l[0] == "#":  # comment or an empty line
-            l = f.readline().strip()
+        l = skip_read_line(f, no_eof=True)
         return l
 
     def _read_section(self, f, integer=True):
-- 
2.43.0


From fa8ffd744ce420e9ed9a4d133c063b7f3f9f3ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 46/95] fix: NEUMeshIO.read_dimension() loops forever

---
 sfepy/discrete/fem/meshio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 4046aaa..9d0e149 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1574,10 +1574,12 @@ class NEUMeshIO(MeshIO):
 
         fd = open(self.filename, 'r')
 
-        row = fd.readline().split()
         while 1:
+            row = fd.readline()
             if not row:
-                break
+                raise EOFError('mesh dimension not found! (%s)'
+                               % self.filename)
+            row = row.split()
             if len(row) == 0:
                 continue
 
-- 
2.43.0


From 91895bb2360e4488bd064d54df9f7f292610571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 47/95] fix: cells referring to missing vertices corrupt memory

---
 sfepy/discrete/fem/mesh.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 5878863..54bda97 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -381,6 +381,15 @@ class Mesh(Struct):
         self.descs = descs
         self.nodal_bcs = get_default(nodal_bcs, {})
 
+        for conn, desc in zip(conns, descs):
+            conn = nm.asarray(conn)
+            if conn.size and ((conn.min() < 0)
+                              or (conn.max() >= coors.shape[0])):
+                raise ValueError('%s cells refer to missing vertices!'
+                                 ' (%d vertices, indices in [%d, %d])'
+                                 % (desc, coors.shape[0],
+                                    conn.min(), conn.max()))
+
         max_tdim = nm.max([int(k[0]) for k in descs])
         self.cmesh_tdim = [None] * 4
         copy_coors = True
-- 
2.43.0


From e7e539ca8a4b133a3b428ed343e0fe0bd3d659ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 48/95] fix: an incomplete last line of hmascii files is read
 as wrong data

---
 sfepy/discrete/fem/meshio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 9d0e149..cb7d57d 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1523,8 +1523,13 @@ class HypermeshAsciiMeshIO(MeshIO):
         mat_trias = []
         mat_id = 0
 
+        keywords = ('component', 'node', 'tetra4', 'hexa8', 'quad4', 'tria3')
         for line in fd:
             if line and (line[0] == '*'):
+                if (line[1:].startswith(keywords)
+                    and not line.rstrip().endswith(')')):
+                    raise ValueError('damaged line "%s"!' % line.strip())
+
                 if line[1:10] == 'component':
                     line = line.strip()[11:-1].split(',')
                     mat_id = int(line[0])
-- 
2.43.0


From a37d2e9674bd90978dec54a6b59fd4a8281567b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 49/95] fix: Newton solver result when giving up on a failed
 residual evaluation

---
 sfepy/solvers/nls.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index a415abd..5a322a1 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -198,6 +198,7 @@ def apply_line_search_bt(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -366,6 +367,7 @@ def apply_line_search_ipc(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -642,14 +644,14 @@ class Newton(NonlinearSolver):
             if (self.log is not None) and ('iteration' in conf.log_vlines):
                 self.log.plot_vlines([1], color='g', linewidth=0.5)
 
-            condition = conv_test(conf, it, err, err0)
-            if condition >= 0:
-                break
-
             if (not ok) and conf.give_up_warp:
                 condition = 2
                 break
 
+            condition = conv_test(conf, it, err, err0)
+            if condition >= 0:
+                break
+
             timers.matrix.start()
             if not conf.is_linear:
                 if (is_new_jacobian(it, it_jac, vec_r, vec_r_last, vec_x,
-- 
2.43.0


From 234504c1e2cc7acaec514ecb2ecced4958672117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 50/95] fix: ScipyRoot condition is zero when the solver
 converged

---
 sfepy/solvers/nls.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index 5a322a1..53275e4 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -768,16 +768,17 @@ class ScipyRoot(NonlinearSolver):
         err = nla.norm(sol.fun)
 
         nit = sol.get('nit', -1)
+        condition = 0 if sol.success else -1
         if status is not None:
             status['time_stats'] = {'solver' : timer.stop()}
             status['err'] = err
             status['n_iter'] = nit
             status['n_fev'] = sol.nfev
-            status['condition'] = sol.status
+            status['condition'] = condition
 
         if conf.report_status:
             output(sol.message)
-            output(f'status: {sol.status}, iter: {nit},'
+            output(f'cond: {condition}, iter: {nit},'
                    f' nfev: {sol.nfev}, err: {err:.8e}')
             output('solver: %.8f [s]' % status['time_stats']['solver'])
 
-- 
2.43.0


From 0e639c50b6da001c7c0ecb0c405abfea07de6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 51/95] fix: FMinSteepestDescent status

---
 sfepy/solvers/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/optimize.py b/sfepy/solvers/optimize.py
index e299c72..7441c2b 100644
--- a/sfepy/solvers/optimize.py
+++ b/sfepy/solvers/optimize.py
@@ -292,7 +292,7 @@ class FMinSteepestDescent(OptimizationSolver):
 
         if status is not None:
             status['log'] = self.log
-            status['status'] = status
+            status['status'] = ret
             status['of0'] = of0
             status['of'] = of
             status['it'] = it
-- 
2.43.0


From cb281b0e29705558166b69c61fbf599199708f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 52/95] fix: ScipyFMinSolver fails with Python 3.11+

---
 sfepy/solvers/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/optimize.py b/sfepy/solvers/optimize.py
index 7441c2b..45e7e2e 100644
--- a/sfepy/solvers/optimize.py
+++ b/sfepy/solvers/optimize.py
@@ -370,7 +370,7 @@ class ScipyFMinSolver(OptimizationSolver):
         if conf.method in self._has_grad:
             kwargs['fprime'] = obj_fun_grad
 
-        if 'disp' in inspect.getargspec(self.solver)[0]:
+        if 'disp' in inspect.getfullargspec(self.solver)[0]:
             kwargs['disp'] = conf.verbose
 
         kwargs.update(self.build_solver_kwargs(conf))
-- 
2.43.0


From b250e5e12e34e6d5961e1397aec673ae80ffaa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 53/95] fix: SemismoothNewton iteration count is not reported

---
 sfepy/solvers/semismooth_newton.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 7af80c5..d77d44b 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -250,6 +250,7 @@ class SemismoothNewton(Newton):
             status['time_stats'] = time_stats
             status['err0'] = err0
             status['err'] = err
+            status['n_iter'] = it
             status['condition'] = condition
 
         if conf.log.plot is not None:
-- 
2.43.0


From 207edc7fca90e2945fdb655aebc4761d112d62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 54/95] fix: micro coordinates updated twice by update
 functions

HomogenizationApp.update_micro_states() called a function given for 'coors'
twice in each update.
---
 sfepy/homogenization/homogen_app.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sfepy/homogenization/homogen_app.py b/sfepy/homogenization/homogen_app.py
index d044def..dd154d2 100644
--- a/sfepy/homogenization/homogen_app.py
+++ b/sfepy/homogenization/homogen_app.py
@@ -137,13 +137,10 @@ class HomogenizationApp(PDESolverApp):
             if key + '_prev' in micro_update and state is not None:
                 self.micro_states[key + '_prev'] = state.copy()
 
-            if key == 'coors':
-                if hasattr(upd_obj, '__call__'):
-                    upd_obj(state, self.macro_data, self.problem)
-                else:
-                    # macro strain - in the first sequence of the list
-                    mtx_e = self.macro_data[upd_obj[0][2]]
-                    state += la.dot_sequences(state, mtx_e, 'ABT')
+            if (key == 'coors') and not hasattr(upd_obj, '__call__'):
+                # macro strain - in the first sequence of the list
+                mtx_e = self.macro_data[upd_obj[0][2]]
+                state += la.dot_sequences(state, mtx_e, 'ABT')
 
             if hasattr(upd_obj, '__call__'):
                 upd_obj(state, self.macro_data, self.problem)
-- 
2.43.0


From ce62c1fb6ab6c8cbed559e87525bef82de751467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 55/95] fix: micro-state update by macroscopic data without
 correctors

HomogenizationApp.update_micro_states() failed with UnboundLocalError.
---
 sfepy/homogenization/homogen_app.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/homogenization/homogen_app.py b/sfepy/homogenization/homogen_app.py
index dd154d2..cb1cff7 100644
--- a/sfepy/homogenization/homogen_app.py
+++ b/sfepy/homogenization/homogen_app.py
@@ -161,6 +161,7 @@ class HomogenizationApp(PDESolverApp):
                                 vname, macro_data, mul)
                         else:
                             state += macro_data[..., 0]
+                            state0 = state
 
                         if state0 is not state:
                             self.micro_states[key] = state0
-- 
2.43.0


From 2c46b8af7cf96c6190e8dc218664ef8d1fede9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 56/95] fix: stored micro-states overwritten in the following
 steps

---
 sfepy/homogenization/homogen_app.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/homogenization/homogen_app.py b/sfepy/homogenization/homogen_app.py
index cb1cff7..71131ae 100644
--- a/sfepy/homogenization/homogen_app.py
+++ b/sfepy/homogenization/homogen_app.py
@@ -1,3 +1,4 @@
+from copy import copy
 import os.path as op
 import shutil
 
@@ -242,7 +243,8 @@ class HomogenizationApp(PDESolverApp):
             for ii in self.app_options.store_micro_idxs:
                 for k in self.micro_states.keys():
                     key = self.get_micro_cache_key(k, ii, itime)
-                    ms_cache[key] = self.micro_states[k][ii]
+                    # The states are updated in place in the next steps.
+                    ms_cache[key] = copy(self.micro_states[k][ii])
 
             coef_save_name = op.join(opts.output_dir, opts.coefs_filename)
             coefs.to_file_hdf5(coef_save_name + '%s.h5' % time_tag)
-- 
2.43.0


From 8c76dfa5fedb7aaab844df1c6bcb0e4b09063102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 57/95] fix: storing micro-states that are not available yet
 fails

---
 sfepy/homogenization/homogen_app.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/homogenization/homogen_app.py b/sfepy/homogenization/homogen_app.py
index 71131ae..72af170 100644
--- a/sfepy/homogenization/homogen_app.py
+++ b/sfepy/homogenization/homogen_app.py
@@ -242,6 +242,7 @@ class HomogenizationApp(PDESolverApp):
             ms_cache = self.micro_state_cache
             for ii in self.app_options.store_micro_idxs:
                 for k in self.micro_states.keys():
+                    if self.micro_states[k] is None: continue
                     key = self.get_micro_cache_key(k, ii, itime)
                     # The states are updated in place in the next steps.
                     ms_cache[key] = copy(self.micro_states[k][ii])
-- 
2.43.0


From 50ebae9e2f5bf75ba5c60716700399538addf7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:43 +0000
Subject: [PATCH 58/95] fix: micro-states of a macroscopic problem leak to
 another one

get_homog_coefs_nonlinear() used one homogenization application for all
macroscopic problems with the same micro-problem in a process, so that the
second problem started with the deformed microstructures of the first one.
---
 sfepy/homogenization/micmac.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sfepy/homogenization/micmac.py b/sfepy/homogenization/micmac.py
index a8cd5a7..0c98878 100644
--- a/sfepy/homogenization/micmac.py
+++ b/sfepy/homogenization/micmac.py
@@ -1,4 +1,5 @@
 import os.path as op
+from weakref import WeakKeyDictionary
 import numpy as nm
 import tables as pt
 from sfepy.base.base import output, Struct
@@ -118,13 +119,16 @@ def get_homog_coefs_nonlinear(ts, coor, mode, macro_data=None,
     output.prefix = 'micro:'
 
     micro_filename = problem.conf.options.micro_filename
-    if micro_filename not in homogen_app_cache:
+    # The micro-states belong to a particular macroscopic problem.
+    apps = homogen_app_cache.setdefault(('nonlinear', micro_filename),
+                                        WeakKeyDictionary())
+    if problem not in apps:
         conf = get_micro_conf(micro_filename, define_args, output_dir)
         options = Struct(output_filename_trunk=None)
-        app = HomogenizationApp(conf, options, 'micro:', n_micro=coor.shape[0])
-        homogen_app_cache[micro_filename] = app
-    else:
-        app = homogen_app_cache[micro_filename]
+        apps[problem] = HomogenizationApp(conf, options, 'micro:',
+                                          n_micro=coor.shape[0])
+
+    app = homogen_app_cache[micro_filename] = apps[problem]
 
     if macro_data is not None:
         macro_data['macro_time_step'] = ts.step
-- 
2.43.0


From 947c3b86b587d3eba7fba838ea2b73c9f27972e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 59/95] fix: get_homog_coefs_linear() ignores define_args of
 cached micro-problems

The coefficients of the first evaluated micro-problem were returned for any
other arguments of the same definition file.
---
 sfepy/homogenization/micmac.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/sfepy/homogenization/micmac.py b/sfepy/homogenization/micmac.py
index 0c98878..fa4309b 100644
--- a/sfepy/homogenization/micmac.py
+++ b/sfepy/homogenization/micmac.py
@@ -13,8 +13,12 @@ from sfepy.discrete.fem.meshio import HDF5MeshIO
 homogen_app_cache = {}
 
 
-def get_homogen_app_form_cache(micro_filename):
-    return homogen_app_cache.get(micro_filename, None)
+def get_homogen_app_form_cache(micro_filename, define_args=None):
+    key = micro_filename
+    if define_args is not None:
+        key = (micro_filename, repr(define_args))
+
+    return homogen_app_cache.get(key, None)
 
 
 def get_micro_conf(micro_filename, define_args, output_dir):
@@ -54,8 +58,11 @@ def get_homog_coefs_linear(ts, coor, mode,
                            output_dir=None):
 
     nc = None if coor is None else coor.shape[0]
-    if micro_filename in homogen_app_cache:
-        return coefs_to_dict(homogen_app_cache[micro_filename][0], mode, nc)
+    # Micro-problems with various arguments differ.
+    key = (micro_filename, repr(define_args))
+    if key in homogen_app_cache:
+        homogen_app_cache[micro_filename] = homogen_app_cache[key]
+        return coefs_to_dict(homogen_app_cache[key][0], mode, nc)
 
     oprefix = output.prefix
     output.prefix = 'micro:'
@@ -88,7 +95,7 @@ def get_homog_coefs_linear(ts, coor, mode,
 
         rhook = (None if recovery_hook is None else
                  conf.get_function(recovery_hook))
-        homogen_app_cache[micro_filename] = (coefs, app.he, deps, rhook)
+        homogen_app_cache[key] = (coefs, app.he, deps, rhook)
     else:
         coefs = Coefficients.from_file_hdf5( coefs_filename )
         recovery_hook = conf.options.get('recovery_hook', None)
@@ -99,9 +106,11 @@ def get_homog_coefs_linear(ts, coor, mode,
                                         init_solvers=False)
             options = Struct(output_filename_trunk=None)
             he = HomogenizationEngine(problem, options)
-            homogen_app_cache[micro_filename] = (coefs, he, corrs, rhook)
+            homogen_app_cache[key] = (coefs, he, corrs, rhook)
         else:
-            homogen_app_cache[micro_filename] = (coefs, None, None, None)
+            homogen_app_cache[key] = (coefs, None, None, None)
+
+    homogen_app_cache[micro_filename] = homogen_app_cache[key]
 
     output.prefix = oprefix
 
-- 
2.43.0


From 8cc1bbbb0e52fde1b798908459ae8ea845d2580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 60/95] fix: recover_micro_hook() recovers the region and
 correctors of its first call

The centers of microstructures were cached without regarding the region, the
size of the microstructures and the micro-problem arguments. The correctors
given by the user were ignored.
---
 sfepy/homogenization/micmac.py   |  6 ++--
 sfepy/homogenization/recovery.py | 53 +++++++++++++-------------------
 2 files changed, 25 insertions(+), 34 deletions(-)

diff --git a/sfepy/homogenization/micmac.py b/sfepy/homogenization/micmac.py
index fa4309b..f59a272 100644
--- a/sfepy/homogenization/micmac.py
+++ b/sfepy/homogenization/micmac.py
@@ -14,9 +14,9 @@ homogen_app_cache = {}
 
 
 def get_homogen_app_form_cache(micro_filename, define_args=None):
-    key = micro_filename
-    if define_args is not None:
-        key = (micro_filename, repr(define_args))
+    key = (micro_filename, repr(define_args))
+    if (define_args is None) or (key not in homogen_app_cache):
+        key = micro_filename
 
     return homogen_app_cache.get(key, None)
 
diff --git a/sfepy/homogenization/recovery.py b/sfepy/homogenization/recovery.py
index 4334e49..c2d3e35 100644
--- a/sfepy/homogenization/recovery.py
+++ b/sfepy/homogenization/recovery.py
@@ -12,8 +12,6 @@ from sfepy.homogenization.micmac import get_homogen_app_form_cache
 # TODO : clean-up!
 #
 
-recovery_data_cache = {}
-
 
 def get_output_suffix(iel, ts, naming_scheme, format, output_format):
     if output_format != 'h5':
@@ -530,39 +528,32 @@ def recover_micro_hook(micro_filename, region, macro, eps0,
     if eval_mode not in ['constant', 'continuous']:
         raise ValueError(f"Evaluation mode '{eval_mode}' not implemented!")
 
-    rkey = f'{micro_filename}|{region_mode}|{eval_mode}'
-    if rkey not in recovery_data_cache:
-        aux = get_homogen_app_form_cache(micro_filename)
-        if aux is None or aux[-1] is None:
-            raise ValueError('"recovery_hook" is not set!')
-
-        _, he, corrs, rhook = aux
-
-        if isinstance(region, Region):
-            if region_mode == 'el_centers':
-                dim = region.domain.mesh.dim
-                ccoors = region.cmesh.get_centroids(dim)
-                ccoors = ccoors[region.get_cells(), :]
-                recovery_ids = region.get_entities(-1)
-                recovery_ids_s = [f'(element {k})' for k in recovery_ids]
-            elif region_mode == 'tiled':
-                ccoors = get_recovery_points(region, eps0)
-                recovery_ids = nm.arange(ccoors.shape[0])
-                recovery_ids_s = [f'(point {k})' for k in recovery_ids]
-            else:
-                raise ValueError(
-                    f"Region mode '{region_mode}' not implemented!")
-
-        else:
-            ccoors = region
+    aux = get_homogen_app_form_cache(micro_filename, define_args)
+    if aux is None or aux[-1] is None:
+        raise ValueError('"recovery_hook" is not set!')
+
+    _, he, app_corrs, rhook = aux
+    corrs = get_default(corrs, app_corrs)
+
+    if isinstance(region, Region):
+        if region_mode == 'el_centers':
+            dim = region.domain.mesh.dim
+            ccoors = region.cmesh.get_centroids(dim)
+            ccoors = ccoors[region.get_cells(), :]
+            recovery_ids = region.get_entities(-1)
+            recovery_ids_s = [f'(element {k})' for k in recovery_ids]
+        elif region_mode == 'tiled':
+            ccoors = get_recovery_points(region, eps0)
             recovery_ids = nm.arange(ccoors.shape[0])
             recovery_ids_s = [f'(point {k})' for k in recovery_ids]
+        else:
+            raise ValueError(
+                f"Region mode '{region_mode}' not implemented!")
 
-        recovery_data_cache[rkey] = (he, corrs, ccoors,
-                                     recovery_ids, recovery_ids_s, rhook)
     else:
-        he, corrs, ccoors, recovery_ids, recovery_ids_s, rhook =\
-            recovery_data_cache[rkey]
+        ccoors = region
+        recovery_ids = nm.arange(ccoors.shape[0])
+        recovery_ids_s = [f'(point {k})' for k in recovery_ids]
 
     nrec = ccoors.shape[0]
 
-- 
2.43.0


From f1e24b6c87648e94211261a7a48c2048b8efa9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 61/95] fix: distribute DOFs of subdomains without interfaces

create_task_dof_maps() skipped tasks that have no inter-task facets, e.g. when
a component of a disconnected mesh forms a subdomain.
---
 sfepy/parallel/parallel.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/sfepy/parallel/parallel.py b/sfepy/parallel/parallel.py
index 1846cd0..7cbcc96 100644
--- a/sfepy/parallel/parallel.py
+++ b/sfepy/parallel/parallel.py
@@ -170,7 +170,10 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
     inter_count = 0
     ocs = nm.zeros(0, dtype=nm.int32)
     cell_parts = []
-    for ir, ntasks in ordered_iteritems(inter_facets):
+    for ir in nm.unique(cell_tasks):
+        # A subdomain need not have neighbors.
+        ntasks = inter_facets.get(ir, {})
+
         cells = nm.where(cell_tasks == ir)[0].astype(nm.int32)
         cell_parts.append(cells)
 
@@ -247,7 +250,9 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
 
         domain.regions.pop() # Remove the cell region.
 
-        inner_dofs = nm.setdiff1d(dofs, nm.concatenate(inter_dofs))
+        inner_dofs = dofs
+        if len(inter_dofs):
+            inner_dofs = nm.setdiff1d(dofs, nm.concatenate(inter_dofs))
         n_inner = len(inner_dofs)
         rdof_map[3] += n_inner
         assert_(nm.all(id_map[inner_dofs] == 0))
@@ -282,17 +287,6 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
         dof_map[4] = offset
         offset += n_owned
 
-    if not len(dof_maps):
-        dofs = _get_dofs_region(field, field.region)
-        dof_maps[0] = [dofs, [], [], len(dofs), 0]
-        id_map[:] = nm.arange(len(dofs), dtype=nm.uint32)
-
-    if not len(cell_parts):
-        cell_parts.append(nm.arange(len(cell_tasks), dtype=nm.int32))
-
-    if not len(overlap_cells):
-        overlap_cells.append(nm.zeros(0, dtype=nm.int32))
-
     return dof_maps, id_map, cell_parts, overlap_cells
 
 def verify_task_dof_maps(dof_maps, id_map, field, use_expand_dofs=False,
-- 
2.43.0


From 6cb1741c6774bd98b4906a60f7b25c8651283db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 62/95] fix: use the same overlap cells for all fields in
 distribute_fields_dofs()

Fields of different orders could get different overlap cells, because those
were added only if a field had new DOFs in an interface.
---
 sfepy/parallel/parallel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sfepy/parallel/parallel.py b/sfepy/parallel/parallel.py
index 7cbcc96..ccb4cc4 100644
--- a/sfepy/parallel/parallel.py
+++ b/sfepy/parallel/parallel.py
@@ -480,6 +480,13 @@ def distribute_fields_dofs(fields, cell_tasks, is_overlap=True,
                          coffsets=nm.empty(size, dtype=nm.int32))
             gfds.append(gfd)
 
+        # The local domain of a task is common to all the fields.
+        for ir in range(size):
+            ocs = nm.unique(nm.concatenate([gfd.overlap_cells[ir]
+                                            for gfd in gfds]))
+            for gfd in gfds:
+                gfd.overlap_cells[ir] = ocs
+
         # Initialize composite offsets of DOFs.
         if len(fields) > 1:
             # Renumber id_maps for field inter-leaving.
-- 
2.43.0


From e87e5e6b83e3e2f2852979a603fe03eb2f165fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 63/95] fix: clear the previous values in
 PETScParallelEvaluator

Repeated evaluations accumulated the contributions of the tasks when the
overlap was not used, and left matrix entries that became zero otherwise.
---
 sfepy/parallel/evaluate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/parallel/evaluate.py b/sfepy/parallel/evaluate.py
index 81e56e2..9b492a9 100644
--- a/sfepy/parallel/evaluate.py
+++ b/sfepy/parallel/evaluate.py
@@ -35,6 +35,8 @@ class PETScParallelEvaluator(Evaluator):
         rhs_if = Evaluator.eval_residual(self, self.psol_i[...],
                                          is_full=True)
 
+        # Without overlaps, the contributions are added.
+        prhs.set(0.0)
         pp.assemble_rhs_to_petsc(prhs, rhs_if, self.pdofs, self.drange,
                                  self.is_overlap,
                                  self.comm, verbose=self.verbose)
@@ -44,6 +46,8 @@ class PETScParallelEvaluator(Evaluator):
 
         mtx_if = Evaluator.eval_tangent_matrix(self, self.psol_i[...],
                                                is_full=True)
+        # Entries that became zero are not set.
+        pmtx.zeroEntries()
         pp.assemble_mtx_to_petsc(pmtx, mtx_if, self.pdofs, self.drange,
                                  self.is_overlap,
                                  self.comm, verbose=self.verbose)
-- 
2.43.0


From 87c70231458bed902db573ff6e3a66bdb210aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:58 +0000
Subject: [PATCH 64/95] fix: evaluate in points and probe fields defined in
 subdomains

---
 sfepy/discrete/fem/fields_base.py | 8 ++++++--
 sfepy/discrete/probes.py          | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 983556b..52f9e15 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -988,6 +988,10 @@ class FEField(Field):
 
             conns = [conn]
             mat_ids = [self.cmesh.cell_groups]
+            if self.region.tdim == self.cmesh.tdim:
+                # The field region can be a part of the domain.
+                mat_ids = [mat_ids[0][self.region.get_cells()]]
+
             tdim = self.cmesh.tdim
             descs = f'{tdim}_{conn.shape[1]}'
             if descs not in mesh.descs:
@@ -1041,7 +1045,7 @@ class FEField(Field):
         timer = Timer(start=True)
         if (cache.get('cmesh', None) is None) or not share_geometry:
             mesh = self.create_mesh(extra_nodes=False)
-            cache.cmesh = cmesh = self.cmesh
+            cache.cmesh = cmesh = mesh.cmesh
 
             gels = create_geometry_elements()
 
@@ -1062,7 +1066,7 @@ class FEField(Field):
 
         timer.start()
         if (cache.get('kdtree', None) is None) or not share_geometry:
-            cache.kdtree = KDTree(cmesh.coors)
+            cache.kdtree = KDTree(cache.cmesh.coors)
 
         output('kdtree: %f s' % timer.stop(), verbose=verbose)
 
diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 7a25e47..971b936 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -370,7 +370,9 @@ class Probe(Struct):
 
         else:
             if self.options.size_hint is None:
-                ed = variable.get_element_diameters(cells, 0)
+                # The cells are local to the field region.
+                region_cells = variable.field.region.get_cells()
+                ed = variable.get_element_diameters(region_cells[cells], 0)
                 pd = 0.5 * (ed[1:] + ed[:-1])
 
             else:
-- 
2.43.0


From 006ec0bc44e60d6dd05b93e697f9d85e8c6f76c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:58 +0000
Subject: [PATCH 65/95] fix: probes reuse data of other variables, meshes and
 options

---
 sfepy/discrete/probes.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 971b936..ec0728c 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -190,9 +190,18 @@ class Probe(Struct):
         Return the actual evaluate cache, which is a combination of the
         (mesh-based) evaluate cache and probe-specific data, like the reference
         element coordinates. The reference element coordinates are reused, if
-        the sha1 hash of the probe parameter vector does not change.
-        """
-        self.acache += cache
+        the (mesh-based) evaluate cache data, the sha1 hash of the probe
+        parameter vector and the closest element distance limit do not change.
+        """
+        is_same = ((self.acache.get('cmesh', None) is cache.cmesh)
+                   and (self.acache.get('close_limit', None)
+                        == self.options.close_limit))
+        self.acache.cmesh = cache.cmesh
+        self.acache.centroids = cache.centroids
+        self.acache.normals0 = cache.normals0
+        self.acache.normals1 = cache.normals1
+        self.acache.kdtree = cache.kdtree
+        self.acache.close_limit = self.options.close_limit
 
         def _gen_array_chunks(arr):
             ii = 0
@@ -205,7 +214,7 @@ class Probe(Struct):
             sha1.update(chunk)
 
         digest = sha1.hexdigest()
-        if digest != self.acache.pars_digest:
+        if (not is_same) or (digest != self.acache.pars_digest):
             self.acache.pars_digest = digest
             self.acache.ref_coors = None
             self.acache.cells = None
-- 
2.43.0


From 27c8917bf0d4c3b821b248f778b21791140ad566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:58 +0000
Subject: [PATCH 66/95] fix: refinement of circle probes with a size hint

---
 sfepy/discrete/probes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index ec0728c..7520a6b 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -383,15 +383,15 @@ class Probe(Struct):
                 region_cells = variable.field.region.get_cells()
                 ed = variable.get_element_diameters(region_cells[cells], 0)
                 pd = 0.5 * (ed[1:] + ed[:-1])
+                pd1 = 0.5 * (ed[0] + ed[-1])
 
             else:
-                pd = self.options.size_hint
+                pd = pd1 = self.options.size_hint
 
             dist = norm_l2_along_axis(points[1:] - points[:-1])
 
             refine_flag = dist > pd
             if self.is_cyclic:
-                pd1 = 0.5 * (ed[0] + ed[-1])
                 dist1 = nla.norm(points[0] - points[-1])
 
                 refine_flag = nm.r_[refine_flag, dist1 > pd1]
-- 
2.43.0


From 189e82df056b1765f129df97638bea08af7c9b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:04 +0000
Subject: [PATCH 67/95] fix: reference coordinates of the closest cell in
 find_ref_coors()

---
 sfepy/discrete/common/extmods/refcoors.c | 32 ++++++++++++------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/sfepy/discrete/common/extmods/refcoors.c b/sfepy/discrete/common/extmods/refcoors.c
index 47373ba..a771ba1 100644
--- a/sfepy/discrete/common/extmods/refcoors.c
+++ b/sfepy/discrete/common/extmods/refcoors.c
@@ -390,12 +390,12 @@ int32 refc_find_ref_coors(FMField *ref_coors,
 {
   BasisContext *ctx = (BasisContext *) _ctx;
 
-  int32 ip, ic, ii, imin, ok, xi_ok, ret = RET_OK;
+  int32 ip, ic, ii, imin, ok, xi_ok, min_ok, ret = RET_OK;
   int32 D = mesh->topology->max_dim;
   int32 nc = mesh->geometry->dim;
   float64 d_min, dist;
   float64 *mesh_coors = mesh->geometry->coors;
-  float64 buf3[3];
+  float64 buf3[3], xi_min[3];
   FMField point[1], e_coors[1], xi[1];
   Indices cell_vertices[1];
   MeshEntity cell_ent[1];
@@ -423,9 +423,12 @@ int32 refc_find_ref_coors(FMField *ref_coors,
       continue;
     }
 
-    ok = xi_ok = 0;
+    ok = min_ok = 0;
     d_min = 1e10;
     imin = candidates[offsets[ip]];
+    for (ii = 0; ii < nc; ii++) {
+      xi_min[ii] = 0.0;
+    }
 
     for (ic = offsets[ip]; ic < offsets[ip+1]; ic++) {
       /* output("***** %d %d %d\n", ip, ic, candidates[ic]); */
@@ -438,26 +441,23 @@ int32 refc_find_ref_coors(FMField *ref_coors,
                       ctx->e_coors_max->val);
       xi_ok = ctx->get_xi_dist(&dist, xi, point, e_coors, ctx);
 
-      if (xi_ok) {
-        if (dist < qp_eps) {
-          imin = cell_ent->ii;
-          ok = 1;
-          break;
-        } else if (dist < d_min) {
-          d_min = dist;
-          imin = cell_ent->ii;
-        }
-      } else if (dist < d_min) {
+      ok = xi_ok && (dist < qp_eps);
+      if (ok || (dist < d_min)) {
         d_min = dist;
         imin = cell_ent->ii;
+        min_ok = xi_ok;
+        for (ii = 0; ii < nc; ii++) {
+          xi_min[ii] = xi->val[ii];
+        }
       }
+      if (ok) break;
     }
-    /* output("-> %d %d %d %.3e\n", imin, xi_ok, ok, d_min); */
+    /* output("-> %d %d %d %.3e\n", imin, min_ok, ok, d_min); */
 
     cells[ip] = imin;
 
     if (ok != 1) {
-      if (!xi_ok) {
+      if (!min_ok) {
         status[ip] = 4;
       } else if (allow_extrapolation) {
         if (sqrt(d_min) < close_limit) {
@@ -473,7 +473,7 @@ int32 refc_find_ref_coors(FMField *ref_coors,
     }
 
     for (ii = 0; ii < nc; ii++) {
-      ref_coors->val[nc*ip+ii] = xi->val[ii];
+      ref_coors->val[nc*ip+ii] = xi_min[ii];
     }
     ERR_CheckGo(ret);
   }
-- 
2.43.0


From 4dc6e60119724d6fe2b83d38ef7ebbc2a0d9a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 68/95] fix: order of variables, materials, dependencies and
 files depends on hashes

The order of state variables without given orders, of materials, of
homogenization dependencies and of Gmsh files read as a sequence was given by
unordered sets or by the directory listing, so that state vectors, restart
files and results differed among runs of the same problem.
---
 sfepy/discrete/equations.py    | 26 +++++++++++++-------------
 sfepy/discrete/fem/meshio.py   |  3 ++-
 sfepy/discrete/variables.py    |  4 +++-
 sfepy/homogenization/engine.py |  8 ++++----
 sfepy/terms/terms.py           |  8 ++++----
 5 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 7cdfb01..cf08128 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -185,12 +185,12 @@ class Equations(Container):
                     The new equation.
         """
         self.append(equation)
-        self.variables.extend(
-             set(equation.collect_variables() ) - set(self.variables)
-        )
-        self.materials.extend(
-             set(equation.collect_materials() ) - set(self.materials)
-        )
+        variables = dict.fromkeys(equation.collect_variables())
+        self.variables.extend([var for var in variables
+                               if var not in self.variables])
+        materials = dict.fromkeys(equation.collect_materials())
+        self.materials.extend([mat for mat in materials
+                               if mat not in self.materials])
         equation.collect_conn_info(self.conn_info)
         if not self.domain:
            self.domain = self.get_domain()
@@ -261,8 +261,8 @@ class Equations(Container):
         for eq in self:
             materials.extend(eq.collect_materials())
 
-        # Make the list items unique.
-        materials = list(set(materials))
+        # Make the list items unique, keep their order.
+        materials = list(dict.fromkeys(materials))
 
         return materials
 
@@ -281,8 +281,8 @@ class Equations(Container):
         for eq in self:
             variables.extend(eq.collect_variables())
 
-        # Make the list items unique.
-        variables = list(set(variables))
+        # Make the list items unique, keep their order.
+        variables = list(dict.fromkeys(variables))
 
         return variables
 
@@ -320,11 +320,11 @@ class Equations(Container):
         """
         Return the list of names of all variables used in equations.
         """
-        vns = set()
+        vns = []
         for eq in self:
             for term in eq.terms:
-                vns.update(term.get_variable_names())
-        return list(vns)
+                vns.extend(term.get_variable_names())
+        return list(dict.fromkeys(vns))
 
     def get_variable_dependencies(self):
         """
diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index cb7d57d..2ac888a 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -2080,7 +2080,8 @@ class GmshIO(MeshioLibIO):
             import glob
             from os.path import join as pjoin
             filename_wildcard = self._get_filename_wildcard(filename)
-            filenames = glob.glob(filename_wildcard)[self.load_slices[step]]
+            filenames = sorted(glob.glob(filename_wildcard))
+            filenames = filenames[self.load_slices[step]]
 
             for filename in filenames:
                 element_node_out = self._read_element_node_data(filename)
diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 53cbbc0..cfe4443 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -292,7 +292,9 @@ class Variables(Container):
             aux = [self[name]._order for name in self.state]
             orders = [(self[name]._order, name) for name in self.state]
         else:
-            orders = [ii for ii in enumerate(self.state)]
+            # Use the definition order - self.state is an unordered set.
+            orders = [ii for ii in enumerate(name for name in self.names
+                                             if name in self.state)]
 
         if len(orders):
             self.ordered_state = [name for order, name in sorted(orders)]
diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 52faf8d..c7d707a 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -151,8 +151,8 @@ class HomogenizationWorker:
 
         reqcoef_info = copy(coef_info)
         reqcoef_info.update(req_info)
-        compute_names = set(get_default(compute_only, list(coef_info.keys())))
-        compute_names = ['c.' + key for key in compute_names]
+        compute_names = get_default(compute_only, list(coef_info.keys()))
+        compute_names = ['c.' + key for key in dict.fromkeys(compute_names)]
 
         dep_names = []
         for coef_name in compute_names:
@@ -597,8 +597,8 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
             The merged dependencies.
         """
         new_deps = {}
-        for dep in set([rm_chtag(k) for k in deps.keys()
-                        if not isinstance(k, tuple)]):
+        for dep in dict.fromkeys([rm_chtag(k) for k in deps.keys()
+                                  if not isinstance(k, tuple)]):
             new_deps[dep] = sum([deps[f'{dep}|ch:{ii}']
                                  for ii in range(num_chunks)], [])
 
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index f608130..d072135 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -299,19 +299,19 @@ class Terms(Container):
         out = []
         for term in self:
             out.extend(term.get_variable_names())
-        return list(set(out))
+        return list(dict.fromkeys(out))
 
     def get_material_names(self):
         out = []
         for term in self:
             out.extend(term.get_material_names())
-        return list(set(out))
+        return list(dict.fromkeys(out))
 
     def get_user_names(self):
         out = []
         for term in self:
             out.extend(term.get_user_names())
-        return list(set(out))
+        return list(dict.fromkeys(out))
 
 class Term(Struct):
     name = ''
@@ -1062,7 +1062,7 @@ class Term(Struct):
                 materials.remove(mat)
 
         if join:
-            materials = list(set(mat[0] for mat in materials))
+            materials = list(dict.fromkeys(mat[0] for mat in materials))
 
         return materials
 
-- 
2.43.0


From 55de1069cb7d3006135c9c3db3320c1a83b61bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 69/95] fix: create_subequations() modifies terms of the
 original equations

---
 sfepy/discrete/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index cf08128..f108dd1 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -227,6 +227,10 @@ class Equations(Container):
             for known_name in known_var_names:
                 for term in terms:
                     if known_name in term.arg_names:
+                        # Do not modify the original term.
+                        term.args = list(term.args)
+                        term._kwargs = dict(term._kwargs)
+
                         ii = term.arg_names.index(known_name)
                         state = self.variables[known_name]
                         par = FieldVariable(known_name, 'parameter',
-- 
2.43.0


From 4778fafdced22ebf7d64414dff49f5ca3d7d9d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 70/95] fix: creating directories fails when another process
 creates them

---
 sfepy/applications/pde_solver_app.py | 2 +-
 sfepy/base/base.py                   | 4 ++--
 sfepy/base/ioutils.py                | 2 +-
 sfepy/discrete/problem.py            | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfepy/applications/pde_solver_app.py b/sfepy/applications/pde_solver_app.py
index a02c162..741bfe2 100644
--- a/sfepy/applications/pde_solver_app.py
+++ b/sfepy/applications/pde_solver_app.py
@@ -106,7 +106,7 @@ class PDESolverApp(Application):
 
         output_dir = get('output_dir', '.')
         if not os.path.exists(output_dir):
-            os.makedirs(output_dir)
+            os.makedirs(output_dir, exist_ok=True)
 
         return Struct(save_results=get('save_results', True),
                       # Save each variable into a separate file, using
diff --git a/sfepy/base/base.py b/sfepy/base/base.py
index a761db6..5fe5c3c 100644
--- a/sfepy/base/base.py
+++ b/sfepy/base/base.py
@@ -17,7 +17,7 @@ from sfepy.base.goptions import goptions
 
 sfepy_config_dir = os.path.expanduser('~/.sfepy')
 if not os.path.exists(sfepy_config_dir):
-    os.makedirs(sfepy_config_dir)
+    os.makedirs(sfepy_config_dir, exist_ok=True)
 
 
 def get_debug():
@@ -901,7 +901,7 @@ class Output(Struct):
             if isinstance(filename, str):
                 output_dir = os.path.dirname(filename)
                 if output_dir and not os.path.exists(output_dir):
-                    os.makedirs(output_dir)
+                    os.makedirs(output_dir, exist_ok=True)
 
                 fd = open(filename, 'w')
                 fd.close()
diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index c1edcc7..72bf356 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -40,7 +40,7 @@ def ensure_path(filename):
     dirname = os.path.dirname(filename)
     if dirname:
         if not os.path.exists(dirname):
-            os.makedirs(dirname)
+            os.makedirs(dirname, exist_ok=True)
 
         if not os.path.isdir(dirname):
             raise IOError('cannot ensure path for "%s"!' % filename)
diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 59ec55f..d8447c5 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -477,7 +477,7 @@ class Problem(Struct):
         self.output_dir = get_default(output_dir, os.curdir)
 
         if self.output_dir and not op.exists(self.output_dir):
-            os.makedirs(self.output_dir)
+            os.makedirs(self.output_dir, exist_ok=True)
 
     def set_regions(self, conf_regions=None,
                      conf_materials=None, functions=None, allow_empty=False):
-- 
2.43.0


From f5e2b1afa0bafccf29ac97984bff3509ceb52898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 71/95] fix: processes starting concurrently see incomplete
 site_cfg.py

---
 sfepy/config.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sfepy/config.py b/sfepy/config.py
index d0eb7bd..faa3621 100644
--- a/sfepy/config.py
+++ b/sfepy/config.py
@@ -2,6 +2,7 @@ import sys
 import os
 import shutil
 import sysconfig
+import tempfile
 from warnings import warn
 
 def get_top_dir():
@@ -70,9 +71,14 @@ class Config:
 
         if not os.path.exists(config_filename):
             try:
-                shutil.copyfile(os.path.join(top_dir,
-                                             'site_cfg_template.py'),
-                                config_filename)
+                # Copy in a single step - other processes must not see a part
+                # of the file.
+                with tempfile.TemporaryDirectory(dir=sfepy_config_dir) as tdir:
+                    aux = os.path.join(tdir, 'site_cfg.py')
+                    shutil.copyfile(os.path.join(top_dir,
+                                                 'site_cfg_template.py'),
+                                    aux)
+                    os.replace(aux, config_filename)
 
             except:
                 pass
-- 
2.43.0


From 5f783a9d6eddce036c3fc53280f30abd9ea20b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 72/95] fix: concurrent processes use incomplete meshes in
 gen_misc_mesh()

---
 sfepy/mesh/mesh_generators.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index d6490cd..5238098 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -592,12 +592,18 @@ def gen_misc_mesh(mesh_dir, force_create, kind, args, suffix='.mesh',
     directory if it does not exist and return path to it.
     """
     import os
+    import tempfile
     from sfepy import data_dir
 
     defdir = os.path.join(data_dir, 'meshes')
     if mesh_dir is None:
         mesh_dir = defdir
 
+    def replace_files(tdir):
+        for name in os.listdir(tdir):
+            os.replace(os.path.join(tdir, name),
+                       os.path.join(os.path.dirname(filename), name))
+
     def retype(args, types, defaults):
         args=list(args)
         args.extend(defaults[len(args):len(defaults)])
@@ -636,11 +642,19 @@ def gen_misc_mesh(mesh_dir, force_create, kind, args, suffix='.mesh',
 
         mesh = gen_block_mesh(args[1::2], args[0::2],
                               (0.0, 0.0, 0.0), name=filename)
-        mesh.write(filename, io='auto')
+
+        # Create the file in a single step - other processes must not use an
+        # incomplete mesh.
+        with tempfile.TemporaryDirectory(dir=os.path.dirname(filename)
+                                         or os.curdir) as tdir:
+            mesh.write(os.path.join(tdir, os.path.basename(filename)),
+                       io='auto')
+            replace_files(tdir)
+
         output('...done')
 
     else:
-        import subprocess, shutil, tempfile
+        import subprocess, shutil
         filename = filename + '.mesh'
         ensure_path(filename)
 
@@ -660,8 +674,12 @@ dens = %f;
         ff.write(f.read())
         f.close()
         ff.close()
-        subprocess.call(['gmsh', '-3', tmpfile, '-format', 'mesh',
-                         '-o', filename])
+        with tempfile.TemporaryDirectory(dir=os.path.dirname(filename)
+                                         or os.curdir) as tdir:
+            subprocess.call(['gmsh', '-3', tmpfile, '-format', 'mesh', '-o',
+                             os.path.join(tdir, os.path.basename(filename))])
+            replace_files(tdir)
+
         shutil.rmtree(tmp_dir)
         output('...done')
 
-- 
2.43.0


From 1665470a4c6826202bfc5636e6bfb8f298e432b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:09 +0000
Subject: [PATCH 73/95] fix: repeat the update of equations when a linear
 combination condition failed

Equations.time_update() stored the set of active conditions before setting up
the LCBC operators. When a user function of a linear combination condition
failed, the repeated update considered the conditions unchanged and the matrix
graph was not updated.
---
 sfepy/discrete/equations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index f108dd1..ca26d89 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -419,7 +419,6 @@ class Equations(Container):
                                                      problem=problem,
                                                      active_only=active_only)
         graph_changed = active_bcs != self.active_bcs
-        self.active_bcs = active_bcs
 
         if graph_changed or not self.variables.adof_conns:
             adcs = create_adof_conns(self.conn_info, self.variables.adi.indx,
@@ -438,6 +437,9 @@ class Equations(Container):
             for term in eq.terms:
                 term.time_update(ts)
 
+        # Not sooner - the update is repeated if it fails above.
+        self.active_bcs = active_bcs
+
         return graph_changed
 
     def time_update_materials(self, ts, mode='normal', problem=None,
-- 
2.43.0


From 10b0eb44c12229fe5d7e59e561d960f622dc2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 74/95] fix: a failed operation in C breaks all subsequent mesh
 operations

---
 sfepy/discrete/common/extmods/cmesh.pxd       |  1 +
 sfepy/discrete/common/extmods/cmesh.pyx       | 31 +++++++++++++++++--
 sfepy/discrete/common/extmods/common.h        |  1 +
 sfepy/discrete/common/extmods/common_python.c | 25 ++++++++++++---
 4 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pxd b/sfepy/discrete/common/extmods/cmesh.pxd
index c6067f7..5da4e3e 100644
--- a/sfepy/discrete/common/extmods/cmesh.pxd
+++ b/sfepy/discrete/common/extmods/cmesh.pxd
@@ -16,6 +16,7 @@ cdef extern from 'string.h':
 cdef extern from 'common.h':
     void *pyalloc(size_t size)
     void pyfree(void *pp)
+    int32 errpop()
     void mem_statistics(int lineNo, char *funName,
                         char *fileName, char *dirName)
     size_t mem_get_cur_usage()
diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index ffb937f..cd8228f 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -7,8 +7,22 @@ cimport cython
 
 import numpy as np
 
+from cpython.exc cimport PyErr_Clear, PyErr_Occurred
+
 np.import_array()
 
+cdef int _check_error() except -1:
+    """
+    Propagate an error that occurred in the C functions, so that it does not
+    influence subsequent calls.
+    """
+    if errpop():
+        if PyErr_Occurred() == NULL:
+            raise RuntimeError('ccore error (see above)')
+        return -1
+
+    return 0
+
 cdef class CConnectivity:
     """
     Notes
@@ -49,6 +63,8 @@ cdef class CConnectivity:
 
 cdef _create_cconn(MeshConnectivity *pconn, num, n_incident, what):
     if conn_alloc(pconn, num, n_incident):
+        errpop()
+        PyErr_Clear()
         raise MemoryError('cannot allocate %s connectivity!' % what)
     cconn = CConnectivity(num, n_incident)
     cconn._set_conn(pconn)
@@ -238,6 +254,7 @@ cdef class CMesh:
             cmesh.mesh.topology.num[cmesh.tdim] = cmesh.n_el
 
             num = mesh_count_incident(self.mesh, 0, _entities, dent)
+            _check_error()
 
             indices = np.empty(num, dtype=np.uint32)
             offsets = np.empty(_entities.num + 1, dtype=np.uint32)
@@ -246,6 +263,7 @@ cdef class CMesh:
             _incident.indices = &indices[0]
             _incident.offsets = &offsets[0]
             mesh_get_incident(self.mesh, _incident, 0, _entities, dent)
+            _check_error()
 
             ii0 = (cmesh.tdim + 1) * cmesh.tdim + 0
             cconn = _create_cconn(cmesh.mesh.topology.conn[ii0],
@@ -410,10 +428,13 @@ cdef class CMesh:
         self.conns[ii] = None
 
         # This call can create several (intermediate) connectivities.
-        mesh_setup_connectivity(self.mesh, d1, d2)
+        try:
+            mesh_setup_connectivity(self.mesh, d1, d2)
+            _check_error()
 
-        self._update_pointers()
-        self._update_num()
+        finally:
+            self._update_pointers()
+            self._update_num()
 
     def _update_pointers(self):
         cdef MeshConnectivity *pconn
@@ -534,6 +555,7 @@ cdef class CMesh:
         _entities.indices = &entities[0]
 
         num = mesh_count_incident(self.mesh, dim, _entities, dent)
+        _check_error()
 
         indices = np.empty(num, dtype=np.uint32)
         offsets = np.empty(_entities.num + 1, dtype=np.uint32)
@@ -544,6 +566,7 @@ cdef class CMesh:
             _incident.indices = &indices[0]
             _incident.offsets = &offsets[0]
             mesh_get_incident(self.mesh, _incident, dim, _entities, dent)
+            _check_error()
 
         else:
             offsets[:] = 0
@@ -587,6 +610,7 @@ cdef class CMesh:
         _local_ids.num = _incident.n_incident
         _local_ids.indices = &out[0]
         mesh_get_local_ids(self.mesh, _local_ids, _entities, dent, _incident, dim)
+        _check_error()
 
         return out
 
@@ -610,6 +634,7 @@ cdef class CMesh:
         _entities.indices = &entities[0]
 
         mesh_select_complete(self.mesh, mask, dim, _entities, dent)
+        _check_error()
 
         out = np.empty(mask.n_true, dtype=np.uint32)
 
diff --git a/sfepy/discrete/common/extmods/common.h b/sfepy/discrete/common/extmods/common.h
index 95f8995..8746560 100644
--- a/sfepy/discrete/common/extmods/common.h
+++ b/sfepy/discrete/common/extmods/common.h
@@ -21,6 +21,7 @@ void output(const char *what, ...);
 void errput(const char *what, ...);
 void errset(const char *msg);
 void errclear(void);
+int32 errpop(void);
 
 #define AL_CookieValue   0xf0e0d0c9
 #define AL_AlreadyFreed  0x0f0e0d9c
diff --git a/sfepy/discrete/common/extmods/common_python.c b/sfepy/discrete/common/extmods/common_python.c
index 1592937..63c8e49 100644
--- a/sfepy/discrete/common/extmods/common_python.c
+++ b/sfepy/discrete/common/extmods/common_python.c
@@ -59,6 +59,19 @@ void errclear()
   g_error = 0;
 }
 
+/*!
+  Return non-zero if an error occurred since the last reset, reset the error
+  flag. A Python exception set by errput() is left to be propagated.
+*/
+int32 errpop(void)
+{
+  int32 ret = g_error;
+
+  g_error = 0;
+
+  return(ret);
+}
+
 /*!
   @par Revision history:
   - 17.02.2005, from rcfem2
@@ -217,8 +230,7 @@ void *mem_realloc_mem(void *pp, size_t size, int lineNo, char *funName,
   }
 
   // 1. almost as mem_free_mem().
-  mem_check_ptr(p, lineNo, funName, fileName, dirName);
-  if (ERR_Chk) {
+  if (mem_check_ptr(p, lineNo, funName, fileName, dirName) != RET_OK) {
     ERR_GotoEnd(1);
   }
 
@@ -238,6 +250,11 @@ void *mem_realloc_mem(void *pp, size_t size, int lineNo, char *funName,
   size += (aux) ? sizeof(float64) - aux : 0;
   tsize = size + hsize + sizeof(float64);
   if ((p = (char *) PyMem_Realloc(phead, tsize)) == 0) {
+    // The original block remains valid.
+    mem_list_new((char *) pp, head->size, al_head,
+                 lineNo, funName, fileName, dirName);
+    al_curUsage += head->size;
+    al_frags++;
     errput("%s, %s, %s, %d: error re-allocating to %zu bytes (current: %zu).\n",
            dirName, fileName, funName, lineNo, size, al_curUsage);
     ERR_GotoEnd(1);
@@ -280,8 +297,8 @@ void mem_free_mem(void *pp, int lineNo, char *funName,
 
   if (p == 0) return;
 
-  mem_check_ptr(p, lineNo, funName, fileName, dirName);
-  if (ERR_Chk) {
+  // Memory has to be freed also after an unrelated error.
+  if (mem_check_ptr(p, lineNo, funName, fileName, dirName) != RET_OK) {
     ERR_GotoEnd(1);
   }
 
-- 
2.43.0


From 9201123b3408bd53c7b9008a4b1fde3cf3d7987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 75/95] fix: failed allocations leave incomplete mesh
 connectivities

---
 sfepy/discrete/common/extmods/mesh.c | 72 ++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index a95183b..d949e41 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -242,14 +242,17 @@ int32 conn_alloc(MeshConnectivity *conn, uint32 num, uint32 n_incident)
 int32 conn_resize(MeshConnectivity *conn, uint32 num, uint32 n_incident)
 {
   int32 ret = RET_OK;
+  uint32 *ptr = 0;
 
-  conn->num = num;
-  conn->offsets = realloc_mem(conn->offsets, uint32, num + 1);
+  ptr = realloc_mem(conn->offsets, uint32, num + 1);
   ERR_CheckGo(ret);
+  conn->num = num;
+  conn->offsets = ptr;
 
-  conn->n_incident = n_incident;
-  conn->indices = realloc_mem(conn->indices, uint32, n_incident);
+  ptr = realloc_mem(conn->indices, uint32, n_incident);
   ERR_CheckGo(ret);
+  conn->n_incident = n_incident;
+  conn->indices = ptr;
 
  end_label:
   if (ERR_Chk) {
@@ -265,6 +268,8 @@ int32 conn_free(MeshConnectivity *conn)
 {
    free_mem(conn->indices);
    free_mem(conn->offsets);
+   conn->indices = 0;
+   conn->offsets = 0;
    conn->num = 0;
    conn->n_incident = 0;
 
@@ -363,6 +368,7 @@ int32 mesh_setup_connectivity(Mesh *mesh, int32 d1, int32 d2)
 
   if (d1 < d2) {
     mesh_setup_connectivity(mesh, d2, d1);
+    ERR_CheckGo(ret);
     mesh_transpose(mesh, d1, d2);
   } else {
     if ((d1 == 0) && (d2 == 0)) {
@@ -375,7 +381,9 @@ int32 mesh_setup_connectivity(Mesh *mesh, int32 d1, int32 d2)
       ERR_CheckGo(ret);
     }
     mesh_setup_connectivity(mesh, d1, d3);
+    ERR_CheckGo(ret);
     mesh_setup_connectivity(mesh, d3, d2);
+    ERR_CheckGo(ret);
     mesh_intersect(mesh, d1, d2, d3);
   }
   ERR_CheckGo(ret);
@@ -421,8 +429,14 @@ int32 mesh_build(Mesh *mesh, int32 dim)
 
   debprintf("build %d\n", dim);
 
+  // Counts and pointers have to be set to zero to avoid spurious calls to
+  // conn_free()!
+  memset(sloc, 0, sizeof(MeshConnectivity));
+  memset(gloc, 0, sizeof(MeshConnectivity));
+
   if (!mesh->topology->conn[IJ(D, D, D)]->num) {
     mesh_setup_connectivity(mesh, D, D);
+    ERR_CheckGo(ret);
   }
 
   cD0 = mesh->topology->conn[IJ(D, D, 0)];
@@ -454,13 +468,7 @@ int32 mesh_build(Mesh *mesh, int32 dim)
 
   // Cell-local orientations w.r.t. D -> d.
   oris = alloc_mem(uint32, n_incident);
-  if (dim == 2) {
-    free_mem(mesh->topology->face_oris);
-    mesh->topology->face_oris = oris;
-  } else {
-    free_mem(mesh->topology->edge_oris);
-    mesh->topology->edge_oris = oris;
-  }
+  ERR_CheckGo(ret);
 
   // Allocate D -> d indices.
   conn_alloc(cDd, 0, n_incident);
@@ -471,15 +479,15 @@ int32 mesh_build(Mesh *mesh, int32 dim)
 
   // Allocate maximal buffers for d -> 0 arrays.
   conn_alloc(cd0, n_incident, n_incident * n_v_max);
+  ERR_CheckGo(ret);
   debprintf("build max. n_incident_vertex: %d\n", n_incident * n_v_max);
 
   // Allocate maximal buffers for local connectivity with sorted global
-  // vertices. Counts have to be set to zero to avoid spurious calls to
-  // conn_free()!
-  sloc->num = sloc->n_incident = 0;
+  // vertices.
   conn_alloc(sloc, 12, n_v_max * 12);
-  gloc->num = gloc->n_incident = 0;
+  ERR_CheckGo(ret);
   conn_alloc(gloc, 12, n_v_max * 12);
+  ERR_CheckGo(ret);
 
   id = 0;
   for (mei_init(it0, mesh, D); mei_go(it0); mei_next(it0)) {
@@ -552,13 +560,26 @@ int32 mesh_build(Mesh *mesh, int32 dim)
   debprintf("build n_unique: %d, n_incident (%d -> 0): %d\n",
             id, dim, cd0->offsets[id]);
 
-  // Update entity count in topology.
-  mesh->topology->num[dim] = id;
-
   // Strip d -> 0.
   conn_resize(cd0, id, cd0->offsets[id]);
+  ERR_CheckGo(ret);
+
+  // Update entity count and orientations in topology.
+  mesh->topology->num[dim] = id;
+  if (dim == 2) {
+    free_mem(mesh->topology->face_oris);
+    mesh->topology->face_oris = oris;
+  } else {
+    free_mem(mesh->topology->edge_oris);
+    mesh->topology->edge_oris = oris;
+  }
 
  end_label:
+  if (ret != RET_OK) { // Do not leave incomplete data.
+    free_mem(oris);
+    if (cDd) conn_free(cDd);
+    if (cd0) conn_free(cd0);
+  }
   conn_free(sloc);
   conn_free(gloc);
 
@@ -620,6 +641,8 @@ int32 mesh_transpose(Mesh *mesh, int32 d1, int32 d2)
   }
 
  end_label:
+  if ((ret != RET_OK) && c12) conn_free(c12);
+
   return(ret);
 }
 
@@ -652,6 +675,7 @@ int32 mesh_intersect(Mesh *mesh, int32 d1, int32 d2, int32 d3)
   }
 
   mask = alloc_mem(char, mesh->topology->num[d2]);
+  ERR_CheckGo(ret);
 
   // Count entities of d2 -> d1.
   conn_alloc(c12, mesh->topology->num[d1], 0);
@@ -735,6 +759,7 @@ int32 mesh_intersect(Mesh *mesh, int32 d1, int32 d2, int32 d3)
 
  end_label:
   free_mem(mask);
+  if ((ret != RET_OK) && c12) conn_free(c12);
 
   return(ret);
 }
@@ -849,16 +874,21 @@ int32 mesh_select_complete(Mesh *mesh, Mask *mask, int32 dim,
   MeshEntityIterator it0[1], it1[1];
   MeshConnectivity *conn = mesh->topology->conn[IJ(D, dim, dent)];
 
+  mask->mask = 0;
+  mask->num = 0;
+  mask->n_true = 0;
+
   if (!conn->num) {
     errput("connectivity %d -> %d is not available!\n", dim, dent);
     ERR_CheckGo(ret);
   }
 
+  ent_mask = alloc_mem(char, mesh->topology->num[dent]);
+  ERR_CheckGo(ret);
+
   mask->mask = alloc_mem(char, conn->num);
+  ERR_CheckGo(ret);
   mask->num = conn->num;
-  mask->n_true = 0;
-
-  ent_mask = alloc_mem(char, mesh->topology->num[dent]);
 
   for (ii = 0; ii < entities->num; ii++) {
     ent_mask[entities->indices[ii]] = 1;
-- 
2.43.0


From ed84129c8c498e422696e362eeebc4a7afb37184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 76/95] fix: triangular faces are not shared by stacked wedges

---
 sfepy/discrete/common/extmods/mesh.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index d949e41..1a7bfd3 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -405,6 +405,20 @@ int32 mesh_free_connectivity(Mesh *mesh, int32 d1, int32 d2)
   return(RET_OK);
 }
 
+// Make sorted degenerate quadrilaterals with the same vertices (triangular
+// facets of wedges) equal.
+static void unify_degenerate(uint32 *p, uint32 num)
+{
+  if (num != 4) return;
+
+  if (p[0] == p[1]) {
+    p[1] = p[2];
+    p[2] = p[3];
+  } else if (p[1] == p[2]) {
+    p[2] = p[3];
+  }
+}
+
 int32 mesh_build(Mesh *mesh, int32 dim)
 {
   int32 ret = RET_OK;
@@ -502,6 +516,7 @@ int32 mesh_build(Mesh *mesh, int32 dim)
     for (ii = 0; ii < loc->num; ii++) {
       // ii points to a vertex set in sloc/gloc.
       n_loc = sloc->offsets[ii+1] - sloc->offsets[ii];
+      unify_degenerate(sloc->indices + sloc->offsets[ii], n_loc);
 
       // Try to find entity in cells visited previously.
       for (mei_init_conn(it1, it0->entity, D); mei_go(it1); mei_next(it1)) {
@@ -511,6 +526,7 @@ int32 mesh_build(Mesh *mesh, int32 dim)
         for (mei_init_conn(it2, it1->entity, dim); mei_go(it2); mei_next(it2)) {
           ptr1 = cd0->indices + cd0->offsets[it2->entity->ii];
           uint32_sort234_copy(facet, ptr1, n_loc);
+          unify_degenerate(facet, n_loc);
           ptr2 = sloc->indices + sloc->offsets[ii];
           found = 1;
           for (ic = 0; ic < n_loc; ic++) {
@@ -917,7 +933,7 @@ int32 mesh_select_complete(Mesh *mesh, Mask *mask, int32 dim,
 int32 mesh_get_centroids(Mesh *mesh, float64 *ccoors, int32 dim)
 {
   uint32 nc = mesh->geometry->dim;
-  uint32 id;
+  uint32 id, num, prev;
   float64 *ptr = ccoors;
   float64 *coors = mesh->geometry->coors;
   MeshEntityIterator it0[1], it1[1];
@@ -926,13 +942,19 @@ int32 mesh_get_centroids(Mesh *mesh, float64 *ccoors, int32 dim)
     for (id = 0; id < nc; id++) {
       ptr[id] = 0.0;
     }
+    num = 0;
+    prev = UINT32_None;
     for (mei_init_conn(it1, it0->entity, 0); mei_go(it1); mei_next(it1)) {
+      // Triangular facets of wedges have the last vertex repeated.
+      if (it1->entity->ii == prev) continue;
+      prev = it1->entity->ii;
       for (id = 0; id < nc; id++) {
         ptr[id] += coors[nc * it1->entity->ii + id];
       }
+      num++;
     }
     for (id = 0; id < nc; id++) {
-      ptr[id] /= (float64) it1->it_end;
+      ptr[id] /= (float64) num;
     }
     ptr += nc;
   }
-- 
2.43.0


From 9f209ec64ab3589508f45aa5ae41110f697a9bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 77/95] fix: crash when entities out of range are requested

---
 sfepy/discrete/common/extmods/cmesh.pyx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index cd8228f..ef20fb0 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -248,6 +248,7 @@ cdef class CMesh:
             cmesh.n_el = entities.shape[0]
             cmesh.tdim = dent
 
+            self._check_entities(entities, dent)
             _entities.num = entities.shape[0]
             _entities.indices = &entities[0]
 
@@ -528,6 +529,15 @@ cdef class CMesh:
 
         return ii.astype(np.uint32)
 
+    def _check_entities(self, uint32[::1] entities, int32 dent):
+        """
+        Check that `entities` of dimension `dent` exist in the mesh.
+        """
+        num = self.mesh.topology.num[dent]
+        if num and entities.shape[0] and (np.max(entities) >= num):
+            raise ValueError('entities of dimension %d must be < %d! (%d)'
+                             % (dent, num, np.max(entities)))
+
     def get_incident(self, int32 dim,
                      uint32[::1] entities not None,
                      int32 dent, ret_offsets=False):
@@ -551,6 +561,7 @@ cdef class CMesh:
             else:
                 return empty
 
+        self._check_entities(entities, dent)
         _entities.num = entities.shape[0]
         _entities.indices = &entities[0]
 
@@ -598,6 +609,7 @@ cdef class CMesh:
         if not entities.shape[0] > 0:
             return np.empty(0, dtype=np.uint32)
 
+        self._check_entities(entities, dent)
         _entities.num = entities.shape[0]
         _entities.indices = &entities[0]
 
@@ -630,6 +642,7 @@ cdef class CMesh:
         if not entities.shape[0] > 0:
             return np.empty(0, dtype=np.uint32)
 
+        self._check_entities(entities, dent)
         _entities.num = entities.shape[0]
         _entities.indices = &entities[0]
 
-- 
2.43.0


From 0e0c7e4fd81fbe2d48bb4ec3f5bbd9b7fdd1813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 78/95] fix: get_conn_as_graph() fails for empty connectivities

---
 sfepy/discrete/common/extmods/cmesh.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index ef20fb0..d7ac31e 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -507,7 +507,8 @@ cdef class CMesh:
                                np.array(conn.indices, copy=True,
                                         dtype=np.int32),
                                np.array(conn.offsets, copy=True,
-                                        dtype=np.int32)))
+                                        dtype=np.int32)),
+                              shape=(conn.num, self.num[d2]))
 
         return graph
 
-- 
2.43.0


From 0efae55f665dd445dc2b14b136743d80444832fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 79/95] fix: wrong complete entities given by connectivities of
 freed entities

---
 sfepy/discrete/common/extmods/cmesh.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index d7ac31e..01559dc 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -643,6 +643,10 @@ cdef class CMesh:
         if not entities.shape[0] > 0:
             return np.empty(0, dtype=np.uint32)
 
+        for dd in (dim, dent):
+            if not self.mesh.topology.num[dd]:
+                raise ValueError('entities of dimension %d are not available!'
+                                 % dd)
         self._check_entities(entities, dent)
         _entities.num = entities.shape[0]
         _entities.indices = &entities[0]
-- 
2.43.0


From 506db914e3ff1abb070dfca3af106240179fad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 80/95] fix: incomplete or missing mesh local entities used

---
 sfepy/discrete/common/extmods/cmesh.pyx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index 01559dc..d75fca9 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -334,6 +334,18 @@ cdef class CMesh:
         return cmesh
 
     def set_local_entities(self, gels):
+        try:
+            self._set_local_entities(gels)
+
+        except:
+            # Do not leave incomplete data.
+            self.entities = None
+            for ii in range(self.mesh.entities.num):
+                conn_free(self.mesh.entities.edges[ii])
+                conn_free(self.mesh.entities.faces[ii])
+            raise
+
+    def _set_local_entities(self, gels):
         cdef (MeshConnectivity *) pedges, pfaces
 
         self.mesh.entities.num = len(self.key_to_index)
@@ -730,6 +742,11 @@ cdef class CMesh:
         """
         cdef np.ndarray[float64, mode='c', ndim=2] out
 
+        if (self.dim > 1) and not self.entities:
+            msg = 'CMesh.get_facet_normals() must be called after'\
+                  ' CMesh.set_local_entities()!'
+            raise ValueError(msg)
+
         td = self.tdim
         self.setup_connectivity(td, td - 1)
         ccf = self.get_conn(td, td - 1)
-- 
2.43.0


From aed2b00e32bfb6a8c8d6a6feb68860a94b650d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 81/95] fix: mesh orientation arrays refer to freed memory

---
 sfepy/discrete/common/extmods/cmesh.pyx | 47 +++++++++++++++----------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index d75fca9..f4efcf0 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -399,8 +399,6 @@ cdef class CMesh:
         Set up mesh edge (2D and 3D) and face connectivities (3D only) as well
         as their orientations.
         """
-        cdef np.npy_intp shape[1]
-
         if not self.entities:
             msg = 'CMesh.setup_entities() must be called after'\
                   ' CMesh.set_local_entities()!'
@@ -411,28 +409,35 @@ cdef class CMesh:
 
         else:
             self.setup_connectivity(1, 0)
-
-            ii = self._get_conn_indx(self.mesh.topology.max_dim, 1)
-            shape[0] = <np.npy_intp> self.conns[ii].n_incident
-            ptr = self.mesh.topology.edge_oris
-            self.edge_oris = np.PyArray_SimpleNewFromData(1, shape,
-                                                          np.NPY_UINT32,
-                                                          <void *> ptr)
+            self._update_orientations(1)
 
             if self.tdim == 3:
                 self.setup_connectivity(2, 0)
+                self._update_orientations(2)
+
+    def _update_orientations(self, int32 dim):
+        """
+        Update the arrays with orientations of edges (`dim` equal to 1) or
+        faces (`dim` equal to 2), allocated in C.
+        """
+        cdef np.npy_intp shape[1]
 
-                ii = self._get_conn_indx(self.mesh.topology.max_dim, 2)
-                shape[0] = <np.npy_intp> self.conns[ii].n_incident
-                ptr = self.mesh.topology.face_oris
-                self.face_oris = np.PyArray_SimpleNewFromData(1, shape,
-                                                              np.NPY_UINT32,
-                                                              <void *> ptr)
+        ii = self._get_conn_indx(self.mesh.topology.max_dim, dim)
+        if self.conns[ii] is None: return
 
-                self.facet_oris = self.face_oris
+        shape[0] = <np.npy_intp> self.conns[ii].n_incident
+        ptr = (self.mesh.topology.edge_oris if dim == 1
+               else self.mesh.topology.face_oris)
+        oris = np.PyArray_SimpleNewFromData(1, shape, np.NPY_UINT32,
+                                            <void *> ptr)
+        if dim == 1:
+            self.edge_oris = oris
 
-            else:
-                self.facet_oris = self.edge_oris
+        else:
+            self.face_oris = oris
+
+        if dim == (self.tdim - 1):
+            self.facet_oris = oris
 
     def setup_connectivity(self, d1, d2):
         cdef MeshConnectivity *pconn
@@ -448,6 +453,12 @@ cdef class CMesh:
         finally:
             self._update_pointers()
             self._update_num()
+            # The entities could have been built again.
+            if self.edge_oris is not None:
+                self._update_orientations(1)
+
+            if self.face_oris is not None:
+                self._update_orientations(2)
 
     def _update_pointers(self):
         cdef MeshConnectivity *pconn
-- 
2.43.0


From 0b9e297cbee55d49d26d9f5b2e4da0b4336e2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 82/95] fix: region selector 'r.A' changes the referenced
 region

---
 sfepy/discrete/common/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/discrete/common/domain.py b/sfepy/discrete/common/domain.py
index a2917ae..0c9ab2b 100644
--- a/sfepy/discrete/common/domain.py
+++ b/sfepy/discrete/common/domain.py
@@ -272,6 +272,9 @@ class Domain(Struct):
         region = visit_stack(stack, region_op,
                              region_leaf(self, self.regions, select,
                                          functions, tdim))
+        if any(region is reg for reg in self.regions):
+            # Do not change the referenced region.
+            region = region.copy()
 
         finalize = True
         if eopts is not None:
-- 
2.43.0


From 3af3c2997b065bc8c412f970d311d00dc2809db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 83/95] fix: region get_edge_graph() requires edges to be
 already set up

---
 sfepy/discrete/common/region.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index bd8f097..2eff610 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -810,6 +810,7 @@ class Region(Struct):
         from scipy.sparse import csr_array
 
         cmesh = self.cmesh
+        cmesh.setup_connectivity(1, 0)
 
         e_verts = cmesh.get_incident(0, self.edges, 1)
         e_verts.shape = (e_verts.shape[0] // 2, 2)
-- 
2.43.0


From 8c7d1ac70e294d6a3539ea9c6353fa71f91d7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:43 +0000
Subject: [PATCH 84/95] fix: sparse matrix read in a different format than
 stored is wrong

---
 sfepy/base/ioutils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index 72bf356..e8a229d 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -419,16 +419,13 @@ def read_sparse_matrix_from_hdf5(fd, group, output_format=None):
     format = dec(info.format.read())
     dtype = dec(info.dtype.read())
 
-    if output_format is None:
-        constructor = constructors[format]
-    else:
-        constructor = constructors[output_format]
-
     if format in ['csc', 'csr']:
+        constructor = constructors[format]
         mtx = constructor((data.data.read(),
                            data.indices.read(), data.indptr.read()),
                           shape=info.shape.read(), dtype=dtype)
     elif format == 'coo':
+        constructor = constructors[output_format or 'csr']
         mtx = constructor((data.data.read(),
                            nm.c_[data.rows.read(), data.cols.read()].T),
                           shape=info.shape.read(), dtype=dtype)
@@ -437,6 +434,7 @@ def read_sparse_matrix_from_hdf5(fd, group, output_format=None):
         raise ValueError
 
     if output_format in ['csc', 'csr']:
+        mtx = mtx.asformat(output_format)
         mtx.sort_indices()
 
     return mtx
-- 
2.43.0


From 8e709441a11e4f42080ec47b92e83adb070c72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:43 +0000
Subject: [PATCH 85/95] fix: HDF5 files left open after failures in
 write_dict_hdf5(), read_dict_hdf5()

---
 sfepy/base/ioutils.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index e8a229d..e41ff2a 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -305,8 +305,10 @@ def read_list(fd, n_item, dtype):
 def write_dict_hdf5(filename, adict, level=0, group=None, fd=None):
 
     if level == 0:
-        fd = pt.open_file(filename, mode='w', title='Recursive dict dump')
-        group = '/'
+        with pt.open_file(filename, mode='w',
+                          title='Recursive dict dump') as fd:
+            write_dict_hdf5(filename, adict, 1, '/', fd)
+        return
 
     for key, val in adict.items():
         if isinstance(val, dict):
@@ -320,15 +322,12 @@ def write_dict_hdf5(filename, adict, level=0, group=None, fd=None):
                 fd.create_array(group, '_' + str(key), enc(val),
                                 '%s data' % key)
 
-    if level == 0:
-        fd.close()
-
 def read_dict_hdf5(filename, level=0, group=None, fd=None):
     out = {}
 
     if level == 0:
-        fd = pt.open_file(filename, mode='r')
-        group = fd.root
+        with pt.open_file(filename, mode='r') as fd:
+            return read_dict_hdf5(filename, 1, fd.root, fd)
 
     for name, gr in group._v_groups.items():
         name = name.replace('_', '', 1)
@@ -342,9 +341,6 @@ def read_dict_hdf5(filename, level=0, group=None, fd=None):
 
         out[name] = val
 
-    if level == 0:
-        fd.close()
-
     return out
 
 ##
-- 
2.43.0


From 3d33758232399554e16cc59319504555689f03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:39 +0000
Subject: [PATCH 86/95] fix: HDF5-XDMF output fails for 2D cell data, full and
 custom data

---
 sfepy/discrete/fem/meshio.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 2ac888a..6f6f31c 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -961,7 +961,7 @@ class HDF5MeshIO(MeshIO):
 
         def get_data_dim(shape):
             if len(shape) == 4:
-                return shape[2]
+                return shape[2] * shape[3]
             if len(shape) == 2:
                 return shape[1]
             else:
@@ -991,7 +991,7 @@ class HDF5MeshIO(MeshIO):
             if isinstance(data, pt.Group):
                 if center is None and 'mode' in data:
                     mode = data.mode.read().decode('ascii')
-                    if mode == 'custom':
+                    if mode not in ('vertex', 'cell'):
                         return None
                     center = {'vertex': 'Node',
                               'cell': 'Cell'}[mode]
@@ -1000,7 +1000,8 @@ class HDF5MeshIO(MeshIO):
                 data = data.data
 
             dim = get_data_dim(data.shape)
-            atype = {1: 'Scalar', 3: 'Vector', 6: 'Tensor6', 9: 'Tensor'}[dim]
+            atype = {1: 'Scalar', 3: 'Vector',
+                     6: 'Tensor6', 9: 'Tensor'}.get(dim, 'Matrix')
 
             aitem = et.Element('Attribute',
                                attrib={'AttributeType': atype,
@@ -1086,12 +1087,14 @@ class HDF5MeshIO(MeshIO):
                 4: (9, [0, 1, 3, 4]),
             }
 
-            n, dim = data.shape
-            if dim in expand_tab:
-                dim3, order = expand_tab[dim]
+            n = data.shape[0]
+            flat = data.reshape((n, -1))
+            if flat.shape[1] in expand_tab:
+                dim3, order = expand_tab[flat.shape[1]]
                 out = nm.zeros((n, dim3), dtype=data.dtype)
-                out[:, order] = data
-                return out
+                out[:, order] = flat
+                return (out if data.ndim == 2
+                        else out.reshape((n, 1, dim3, 1)))
             else:
                 return data
 
@@ -1103,7 +1106,8 @@ class HDF5MeshIO(MeshIO):
 
             name_dict = {}
             for key, val in out.items():
-                if xdmf and mesh.coors.shape[1] == 2:
+                if (xdmf and (mesh.coors.shape[1] == 2)
+                    and (val.mode in ('vertex', 'cell'))):
                     data = expand_data_3d(val.data)
                 else:
                     data = val.data
-- 
2.43.0


From fa6182511e35945788aef07383928bac6e92c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:39 +0000
Subject: [PATCH 87/95] fix: unordered steps in XDMF descriptions of HDF5 files

---
 sfepy/discrete/fem/meshio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 6f6f31c..d105c97 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1054,7 +1054,8 @@ class HDF5MeshIO(MeshIO):
                 et_mesh.append(et_conn)
                 et_mesh.append(attr_item(conn_group.mat_id, 'Cell', 'mat_id'))
 
-            steps = [k for k in root if k._v_name.startswith('step')]
+            steps = sorted((k for k in root if k._v_name.startswith('step')),
+                           key=lambda k: int(k._v_name[4:]))
             et_ts = et.SubElement(et_domain, 'Grid',
                                   attrib={'Name': 'TimeSeries',
                                           'GridType': 'Collection',
-- 
2.43.0


From d045f9c77d01eac16e9031e177431ed3a940f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:30 +0000
Subject: [PATCH 88/95] fix: only first columns of cell data matrices written
 by MeshioLibIO

---
 sfepy/discrete/fem/meshio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index d105c97..2b2538a 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -527,7 +527,8 @@ class MeshioLibIO(MeshIO):
 
             cgroups.append(cmesh.cell_groups[cidxs])
             for k in cell_data_keys:
-                cell_data[k].append(out[k].data[cidxs, 0, :, 0])
+                data = out[k].data[cidxs, 0]
+                cell_data[k].append(data.reshape((len(cidxs), -1)))
 
             for k in cgrps:
                 idxs = nm.where(cmesh.cell_groups[cidxs] == k)[0]
-- 
2.43.0


From df438a8f6b93f446ea15cbd16ecad7ae5e2737a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:30 +0000
Subject: [PATCH 89/95] fix: MeshioLibIO.read_data() drops components of
 tensors

---
 sfepy/discrete/fem/meshio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 2b2538a..956a094 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -568,7 +568,9 @@ class MeshioLibIO(MeshIO):
 
         def _fix_shape(data):
             if data.ndim == 2:
-                data = data[:, :dim]
+                # Remove zero components added to vectors in writing.
+                if (data.shape[1] == 3) and not data[:, dim:].any():
+                    data = data[:, :dim]
 
             elif data.ndim == 3:
                 data = data[:, None, ...]
-- 
2.43.0


From ec75a72fc6c1449954876ee913654974cbe78f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:30 +0000
Subject: [PATCH 90/95] fix: MeshioLibIO.read_data() reads data of the first
 cell type only

---
 sfepy/discrete/fem/meshio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 956a094..d5c4740 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -585,7 +585,7 @@ class MeshioLibIO(MeshIO):
             out[key] = Struct(name=key, mode='vertex', data=aux)
 
         for key, data in m.cell_data.items():
-            aux = _fix_shape(data[0]).astype(nm.float64)
+            aux = _fix_shape(nm.concatenate(data)).astype(nm.float64)
             if key.endswith(':ref'):
                 key = 'mat_id'
             out[key] = Struct(name=key, mode='cell', data=aux)
-- 
2.43.0


From 80583ed9274ab555bec7c9c16a5233bb4bd4b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:32 +0000
Subject: [PATCH 91/95] fix: wrong cell groups written by MeshioLibIO for
 several cell types

---
 sfepy/discrete/fem/meshio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index d5c4740..bd9d2aa 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -532,7 +532,7 @@ class MeshioLibIO(MeshIO):
 
             for k in cgrps:
                 idxs = nm.where(cmesh.cell_groups[cidxs] == k)[0]
-                cell_sets[str(k)].append(cidxs[idxs])
+                cell_sets[str(k)].append(idxs)
 
         if self.file_format in ['vtk', 'vtk-ascii', 'vtk-binary', 'vtu']:
             point_sets, cell_sets = None, None
-- 
2.43.0


From f705afb0f0ec4bb73354644423e59f9f964797db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:32 +0000
Subject: [PATCH 92/95] fix: XYZMeshIO silently writes only the first cell type

---
 sfepy/discrete/fem/meshio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index bd9d2aa..7103c12 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -2385,6 +2385,9 @@ class XYZMeshIO(MeshIO):
         coors, ngroups, conns, mat_ids, desc = mesh._get_io_data()
         n_nod, dim = coors.shape
 
+        if len(conns) > 1:
+            raise NotImplementedError
+
         zz = nm.zeros((n_nod, 3-dim))
         nm.savetxt(filename, nm.c_[coors, zz])
 
-- 
2.43.0


From ff7d21165d20c3cf3510fc20cc127e9d79ae2b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:26 +0000
Subject: [PATCH 93/95] fix: read errors ignored by get_data_name() of probe
 results

---
 sfepy/discrete/probes.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 7520a6b..cfb9e69 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -116,12 +116,9 @@ def get_data_name(fd):
     """
     name = None
     while 1:
-        try:
-            line = fd.readline()
-            if (len(line) == 0): break
-            if len(line) == 1: continue
-        except:
-            return
+        line = fd.readline()
+        if (len(line) == 0): break
+        if len(line) == 1: continue
 
         line = line.strip().split()
         if (len(line) == 3) and (line[0] == '#'):
-- 
2.43.0


From cda80b2da13d83e63cc2f8ac7b3a3ddcf2781255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:51 +0000
Subject: [PATCH 94/95] fix: read_array() returns empty rows at the end of a
 cut file

---
 sfepy/base/ioutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index e41ff2a..dd5f314 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -271,6 +271,8 @@ def read_array(fd, n_row, n_col, dtype):
         row = fd.readline().split()
         fd.seek(idx)
         n_col = len(row)
+        if (n_col == 0) and (n_row > 0):
+            raise ValueError('array reading failed, no data found!')
 
     count = n_row * n_col
     val = nm.fromfile(fd, sep=' ', count=count)
-- 
2.43.0


From 6069f0ceb5024261c45ea568f5a417e161d6504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:41 +0000
Subject: [PATCH 95/95] fix: skip_read_line() returns a comment at the end of a
 file

---
 sfepy/base/ioutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index dd5f314..3cc8396 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -215,6 +215,7 @@ def skip_read_line(fd, no_eof=False):
                 raise EOFError
 
             else:
+                ls = ''
                 break
 
         ls = line.strip()
-- 
2.43.0

