From bb36229ff26222eb7ea1b05c1097abc86f5086e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 01/43] fix: derive specific enthalpy from the energy its guard
 asks for

---
 dream/compressible/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dream/compressible/solver.py b/dream/compressible/solver.py
index e367fe8..42d100f 100644
--- a/dream/compressible/solver.py
+++ b/dream/compressible/solver.py
@@ -486,8 +486,8 @@ class CompressibleFlowSolver(SolverConfiguration):
             return U.rho_H/U.rho
 
         elif all((U.rho, U.rho_E, U.p)):
-            logger.debug("Returning specific enthalpy from specific energy, density and pressure.")
-            return U.E + U.p/U.rho
+            logger.debug("Returning specific enthalpy from energy, density and pressure.")
+            return (U.rho_E + U.p)/U.rho
 
         return None
 
-- 
2.43.0


From b511c7e3985ea19d156912e0d75fd495b02ad2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 02/43] fix: raise from the abstract stabilisation matrix

---
 dream/compressible/riemann_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/compressible/riemann_solver.py b/dream/compressible/riemann_solver.py
index be95649..c3a1b25 100644
--- a/dream/compressible/riemann_solver.py
+++ b/dream/compressible/riemann_solver.py
@@ -15,7 +15,7 @@ class RiemannSolver(InterfaceConfiguration, is_interface=True):
     cfg: CompressibleFlowSolver
 
     def get_convective_stabilisation_matrix(self, U: flowfields, unit_vector: bla.VECTOR) -> bla.MATRIX:
-        NotImplementedError()
+        raise NotImplementedError()
 
 
 class Upwind(RiemannSolver):
-- 
2.43.0


From cc7f80589c9278a572d62846a87cd1dee58f981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 03/43] fix: raise instead of returning NotImplementedError in
 3d transformations

---
 dream/compressible/eos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dream/compressible/eos.py b/dream/compressible/eos.py
index 3d20557..c2ab9b0 100644
--- a/dream/compressible/eos.py
+++ b/dream/compressible/eos.py
@@ -506,7 +506,7 @@ class IdealGas(EquationOfState):
                      -d1/(2*U.c*U.rho), 0, -d0, d1/(2*U.c*U.rho),
                      0.5, 0, 0, 0.5)
             else:
-                return NotImplementedError()
+                raise NotImplementedError()
 
             dim = unit_vector.dim + 2
 
@@ -541,7 +541,7 @@ class IdealGas(EquationOfState):
                         0, U.rho*U.c*d0, U.rho*U.c*d1, 1)
 
             else:
-                return NotImplementedError()
+                raise NotImplementedError()
 
             return bla.as_matrix(Linv, dims=(dim, dim))
     
-- 
2.43.0


From 2608fbfa2e5d4d467dd4f8bf323fb837599bde2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 04/43] fix: impose the adiabatic wall with the scalar heat
 flux condition

---
 dream/compressible/formulations/conservative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 99f9466..df86229 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -679,12 +679,12 @@ class HDG(ConservativeMethod):
         Uhat = self.get_conservative_fields(Uhat)
         Q = self.mixed_method.get_mixed_fields(Q)
 
-        tau = self.mixed_method.get_diffusive_stabilisation_matrix(U)
+        tau = self.mixed_method.get_diffusive_stabilisation_matrix(U)[self.mesh.dim + 1, self.mesh.dim + 1]
         T_grad = self.cfg.temperature_gradient(U, Q)
 
-        U_bc = ngs.CF((Uhat.rho - U.rho, Uhat.rho_u, tau * (Uhat.rho_E - U.rho_E + T_grad * n)))
+        U_bc = ngs.CF((Uhat.rho - U.rho, Uhat.rho_u, tau * (Uhat.rho_E - U.rho_E + ngs.InnerProduct(T_grad, n))))
 
-        Gamma_ad = ngs.InnerProduct(Uhat.U - U_bc, Vhat)
+        Gamma_ad = ngs.InnerProduct(U_bc, Vhat)
         blf[f"{bc.name}_{bnd}"] = Gamma_ad * dS
 
     def add_sponge_layer_formulation(
-- 
2.43.0


From fdd052b2b8770201c67da898a43be984aca45f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 05/43] fix: use the last diagonal entry of the strain gradient
 in the viscous characteristic terms

---
 dream/compressible/formulations/conservative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index df86229..507bd08 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -143,12 +143,12 @@ class StrainHeat(MixedMethod):
 
         if bc.target == "outflow":
             grad_q = R.trans * ngs.CF((grad_Q[3], grad_Q[4]))
-            grad_EPS = R * ngs.CF((grad_EPS[0], 0, 0, grad_EPS[2]), dims=(2, 2)) * R.trans
+            grad_EPS = R * ngs.CF((grad_EPS[0], 0, 0, grad_EPS[3]), dims=(2, 2)) * R.trans
             grad_q = R * ngs.CF((0, grad_q[1]))
         else:
-            grad_EPS = R * ngs.CF((0, grad_EPS[1], grad_EPS[1], grad_EPS[2]), dims=(2, 2)) * R.trans
+            grad_EPS = R * ngs.CF((0, grad_EPS[1], grad_EPS[1], grad_EPS[3]), dims=(2, 2)) * R.trans
 
-        grad_Q = ngs.CF((grad_EPS[0], grad_EPS[1], grad_EPS[2], grad_q[0], grad_q[1]))
+        grad_Q = ngs.CF((grad_EPS[0], grad_EPS[1], grad_EPS[3], grad_q[0], grad_q[1]))
 
         S = self.get_conservative_diffusive_jacobian(U, Q, t) * (ngs.grad(U.U) * t)
         S += self.get_conservative_diffusive_jacobian(U, Q, n) * (ngs.grad(U.U) * n)
-- 
2.43.0


From d582beffde3c464f51263229f1dba6edb4eab836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 06/43] fix: use the configured grid deformations when none are
 passed

---
 dream/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/mesh.py b/dream/mesh.py
index e3a5a9b..e2fbfb9 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -593,7 +593,7 @@ class DomainConditions(Conditions):
 
     def get_grid_deformation_function(self, grid_deformations: dict[str, GridDeformation] = None):
         if grid_deformations is None:
-            self.to_pattern(GridDeformation)
+            grid_deformations = self.to_pattern(GridDeformation)
         return self.get_buffer_function_(grid_deformations, GridDeformation)
 
     def get_sponge_layer_function(self, sponge_layers: dict[str, SpongeLayer] = None):
-- 
2.43.0


From 3dafaa0137255f79332158aaa4adacc9d25bd4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 07/43] fix: reach the polynomial sponge formulation

---
 dream/compressible/formulations/conservative.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 507bd08..201d393 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -505,12 +505,12 @@ class HDG(ConservativeMethod):
 
             logger.debug(f"Adding domain condition {dc} on domain {dom}.")
 
-            if isinstance(dc, SpongeLayer):
-                self.add_sponge_layer_formulation(blf, lf, dc, dom)
-
-            elif isinstance(dc, PSpongeLayer):
+            if isinstance(dc, PSpongeLayer):
                 self.add_psponge_layer_formulation(blf, lf, dc, dom)
 
+            elif isinstance(dc, SpongeLayer):
+                self.add_sponge_layer_formulation(blf, lf, dc, dom)
+
             elif isinstance(dc, Initial):
                 continue
 
-- 
2.43.0


From 422a1edb4c8b3bc0c9063013396fb4154d15d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 08/43] fix: accept grid deformations when assembling the
 domain conditions

---
 dream/compressible/formulations/conservative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 201d393..266e6f6 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -5,7 +5,7 @@ import typing
 import dream.bla as bla
 
 from dream.config import InterfaceConfiguration, interface
-from dream.mesh import SpongeLayer, PSpongeLayer, Periodic, Initial
+from dream.mesh import SpongeLayer, PSpongeLayer, Periodic, Initial, GridDeformation
 from dream.compressible.config import (flowfields,
                                        CompressibleFiniteElement,
                                        FarField,
@@ -511,7 +511,7 @@ class HDG(ConservativeMethod):
             elif isinstance(dc, SpongeLayer):
                 self.add_sponge_layer_formulation(blf, lf, dc, dom)
 
-            elif isinstance(dc, Initial):
+            elif isinstance(dc, (Initial, GridDeformation)):
                 continue
 
             else:
-- 
2.43.0


From 12e98c2d1208ce3f10880b76c9176a1bd0888598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 09/43] fix: keep standing waves in the outgoing characteristic
 identity

---
 dream/compressible/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dream/compressible/solver.py b/dream/compressible/solver.py
index 42d100f..eec2545 100644
--- a/dream/compressible/solver.py
+++ b/dream/compressible/solver.py
@@ -294,12 +294,13 @@ class CompressibleFlowSolver(SolverConfiguration):
 
     def get_characteristic_identity(
             self, U: flowfields, unit_vector: bla.VECTOR, type: str = None) -> bla.MATRIX:
-        lambdas = self.characteristic_velocities(U, unit_vector, type)
+        lambdas = self.characteristic_velocities(U, unit_vector)
 
+        # Waves without normal velocity count as outgoing, such that both parts add up to the identity
         if type == "incoming":
             lambdas = (ngs.IfPos(-lam, 1, 0) for lam in lambdas)
         elif type == "outgoing":
-            lambdas = (ngs.IfPos(lam, 1, 0) for lam in lambdas)
+            lambdas = (ngs.IfPos(-lam, 0, 1) for lam in lambdas)
         else:
             raise ValueError(f"{str(type).capitalize()} invalid! Alternatives: {['incoming', 'outgoing']}")
 
-- 
2.43.0


From 4ed5888b14352277dd65c3c17b21645ed79d1ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 10/43] fix: keep different conditions assigned to the same
 regions

---
 dream/compressible/formulations/conservative.py |  8 ++------
 dream/mesh.py                                   | 16 ++++++++--------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 266e6f6..7757e15 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -465,9 +465,7 @@ class HDG(ConservativeMethod):
                                 blf: dict[str, ngs.comp.SumOfIntegrals],
                                 lf: dict[str, ngs.comp.SumOfIntegrals]):
 
-        bnds = self.cfg.bcs.to_pattern()
-
-        for bnd, bc in bnds.items():
+        for bnd, bc in self.cfg.bcs.get_conditions():
 
             logger.debug(f"Adding boundary condition {bc} on boundary {bnd}.")
 
@@ -499,9 +497,7 @@ class HDG(ConservativeMethod):
                               blf: dict[str, ngs.comp.SumOfIntegrals],
                               lf: dict[str, ngs.comp.SumOfIntegrals]):
 
-        doms = self.cfg.dcs.to_pattern()
-
-        for dom, dc in doms.items():
+        for dom, dc in self.cfg.dcs.get_conditions():
 
             logger.debug(f"Adding domain condition {dc} on domain {dom}.")
 
diff --git a/dream/mesh.py b/dream/mesh.py
index e2fbfb9..854ce53 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -501,20 +501,20 @@ class Conditions(UserDict):
 
         return False
 
-    def to_pattern(self, condition_type: Condition | str = Condition) -> dict[str, Condition]:
+    def get_conditions(self, condition_type: Condition | str = Condition) -> list[tuple[str, Condition]]:
+        """ Returns every condition once, paired with the pattern of its regions, in order of assignment. """
 
         if isinstance(condition_type, str):
             condition_type = self.options[condition_type]
 
-        pattern = {}
-        unique_conditions = set([condition for conditions in self.values()
-                                for condition in conditions if isinstance(condition, condition_type)])
+        unique_conditions = dict.fromkeys(condition for conditions in self.values()
+                                          for condition in conditions if isinstance(condition, condition_type))
 
-        for unique in unique_conditions:
-            regions = [region for region in self if unique in self[region]]
-            pattern[get_pattern_from_sequence(regions)] = unique
+        return [(get_pattern_from_sequence([region for region in self if unique in self[region]]), unique)
+                for unique in unique_conditions]
 
-        return pattern
+    def to_pattern(self, condition_type: Condition | str = Condition) -> dict[str, Condition]:
+        return dict(self.get_conditions(condition_type))
 
     def clear(self) -> None:
         self.data = {region: [] for region in self}
-- 
2.43.0


From 1514a1fbebf5afeb6700dd158c72d447fdaa0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 11/43] fix: leave the state alone when no initial condition is
 set

---
 dream/compressible/formulations/conservative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dream/compressible/formulations/conservative.py b/dream/compressible/formulations/conservative.py
index 7757e15..b8f9cbc 100644
--- a/dream/compressible/formulations/conservative.py
+++ b/dream/compressible/formulations/conservative.py
@@ -878,6 +878,9 @@ class ConservativeFiniteElementMethod(CompressibleFiniteElement):
     def set_initial_conditions(self) -> None:
         super().set_initial_conditions()
 
+        if not self.cfg.dcs.has_condition(Initial):
+            return None
+
         U = self.mesh.MaterialCF({dom: ngs.CF(
             (self.cfg.density(dc.fields),
              self.cfg.momentum(dc.fields),
-- 
2.43.0


From 1994c296124f82bde03bc266b89777638e3e754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 12/43] fix: solve in the stationary routine

---
 dream/time.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dream/time.py b/dream/time.py
index 71db640..8dc5f84 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -258,6 +258,8 @@ class StationaryConfig(TimeConfig):
             else:
                 self.lf += cf
 
+        self.cfg.nonlinear_solver.initialize(self.blf, self.lf, self.cfg.gfu)
+
     def start_solution_routine(self, reassemble: bool = True) -> typing.Generator[float | None, None, None]:
 
         if reassemble:
@@ -267,7 +269,9 @@ class StationaryConfig(TimeConfig):
             io.save_pre_time_routine()
 
             # Solution routine starts here
-            self.solve()
+            for _ in self.cfg.nonlinear_solver.solve():
+                continue
+
             yield None
             # Solution routine ends here
 
-- 
2.43.0


From 418535ca0bd15076c002684a61417d6a6d404a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 13/43] fix: finish transient runs without time steps

---
 dream/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dream/time.py b/dream/time.py
index 8dc5f84..591f93a 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -310,8 +310,10 @@ class TransientConfig(TimeConfig):
         if reassemble:
             self.assemble()
 
+        it, t = 0, self.timer.t.Get()
+
         with self.cfg.io as io:
-            io.save_pre_time_routine(self.timer.t.Get())
+            io.save_pre_time_routine(t)
 
             # Solution routine starts here
             for it, t in enumerate(self.timer()):
-- 
2.43.0


From a09581712ce24bbec1213cf690699fde5d5a5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 14/43] fix: label the initial state with the start of the
 interval

---
 dream/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dream/time.py b/dream/time.py
index 591f93a..d5d51d6 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -310,7 +310,8 @@ class TransientConfig(TimeConfig):
         if reassemble:
             self.assemble()
 
-        it, t = 0, self.timer.t.Get()
+        it, t = 0, self.timer.interval[0]
+        self.timer.t = t
 
         with self.cfg.io as io:
             io.save_pre_time_routine(t)
-- 
2.43.0


From ce103022548b94201491bdc0764532c40f4e6885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 15/43] fix: keep the digits of the start time in time labels

---
 dream/time.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dream/time.py b/dream/time.py
index d5d51d6..a3308e2 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -42,11 +42,12 @@ class Timer(UniqueConfiguration):
         start, end = self.interval
         step = self.step.Get()
 
+        digit = max(self.digit, self._get_digit(start))
         N = round((end - start)/(stride*step)) + 1
 
         for i in range(1 - include_start, N):
             self.t = start + stride*i*step
-            yield round(self.t.Get(), self.digit)
+            yield round(self.t.Get(), digit)
 
     def to_array(self, include_start: bool = False, stride: int = 1) -> np.ndarray:
         return np.array(list(self.start(include_start, stride)))
@@ -57,8 +58,11 @@ class Timer(UniqueConfiguration):
             yield t
 
     def _set_digit(self, step: float):
-        digit = f"{step:.16f}".split(".")[1]
-        self.digit = len(digit.rstrip("0"))
+        self.digit = self._get_digit(step)
+
+    def _get_digit(self, number: float) -> int:
+        digit = f"{number:.16f}".split(".")[1]
+        return len(digit.rstrip("0"))
 
     interval: tuple[float, float]
     step: ngs.Parameter
-- 
2.43.0


From 26bb238496fd1155da37c85410e73f1480727b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 16/43] fix: pass the time to mesh and settings streams

---
 dream/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dream/io.py b/dream/io.py
index c186623..92b2663 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -157,7 +157,7 @@ class Stream(InterfaceConfiguration, is_interface=True):
     def open(self) -> Stream:
         return self
 
-    def save_pre_time_routine(self) -> None:
+    def save_pre_time_routine(self, t: float | None = None) -> None:
         raise NotImplementedError("Method 'save_pre_routine' is not implemented!")
 
     def save_in_time_routine(self, t: float, it: int) -> None:
@@ -181,7 +181,7 @@ class MeshStream(Stream):
             path.mkdir(parents=True, exist_ok=True)
         return path
 
-    def save_pre_time_routine(self) -> None:
+    def save_pre_time_routine(self, t: float | None = None) -> None:
         path = self.path.joinpath(self.filename + ".pickle")
 
         with path.open("wb") as open:
@@ -216,7 +216,7 @@ class SettingsStream(Stream):
             path.mkdir(parents=True, exist_ok=True)
         return path
 
-    def save_pre_time_routine(self):
+    def save_pre_time_routine(self, t: float | None = None):
         if self.pickle:
             self.save_to_pickle()
         if self.txt:
-- 
2.43.0


From 7155bff5eb299cf750ed36f6e2672b2db7fac03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 17/43] fix: load the states a transient run has saved

---
 dream/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 92b2663..38a4ccc 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -402,7 +402,13 @@ class GridfunctionStream(Stream):
         import time
 
         logger.info(f"Loading gridfunction from '{self.filename}'")
-        for t in self.cfg.time.timer.start(stride=self.rate):
+        times = list(self.cfg.time.timer.start())
+        for it, t in enumerate(times):
+
+            # The final state is always saved
+            if not it % self.rate == 0 and t != times[-1]:
+                continue
+
             self.load_routine(t)
 
             self.cfg.io.redraw()
-- 
2.43.0


From b3414acd21ddca02454ff1d5f447485859cb0d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 18/43] fix: move dependent folders with their root

---
 dream/io.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/dream/io.py b/dream/io.py
index 38a4ccc..36b5242 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -44,7 +44,6 @@ class path(configuration):
         # Set new path
         if path.is_absolute():
             cfg.data[self.__name__] = path
-            return
         elif hasattr(cfg, 'root'):
             cfg.data[self.__name__] = cfg.root.joinpath(path)
         else:
@@ -56,13 +55,10 @@ class path(configuration):
             for key, path in cfg.data.items():
                 if path == cfg.data[self.__name__]:
                     continue
+                elif path == old and self.__name__ != 'root':
+                    continue
                 elif isinstance(path, Path) and path.is_relative_to(old):
-                    name = path.name
-                    parent = path.parent
-                    while parent != old:
-                        name = Path(parent.name).joinpath(name)
-                        parent = parent.parent
-                    cfg.data[key] = cfg.data[self.__name__].joinpath(name)
+                    cfg.data[key] = cfg.data[self.__name__].joinpath(path.relative_to(old))
 
 
 class stream(configuration):
-- 
2.43.0


From fdde54d0d4794220916d9a629cfabfabd9a4e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 19/43] fix: measure single scalar fields with region sensors

---
 dream/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 36b5242..7d408d3 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -746,7 +746,7 @@ class RegionSensor(Sensor):
 
     def measure(self) -> typing.Generator[np.ndarray, None, None]:
         for region in self._regions.values():
-            yield np.array(ngs.Integrate(self._field, self.mesh, order=self.integration_order, definedon=region))
+            yield np.atleast_1d(ngs.Integrate(self._field, self.mesh, order=self.integration_order, definedon=region))
 
     def set_regions(self, expected: tuple[str], fregion: typing.Callable[[str], ngs.Region]) -> None:
 
-- 
2.43.0


From 18669518ecb185c8ef81e0edd1cb8ecae94b74cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 20/43] fix: integrate boundary sensors without regions over
 the boundary

---
 dream/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 7d408d3..ca7343d 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -751,7 +751,8 @@ class RegionSensor(Sensor):
     def set_regions(self, expected: tuple[str], fregion: typing.Callable[[str], ngs.Region]) -> None:
 
         if self.regions is None:
-            self._regions = {get_pattern_from_sequence(expected): None}
+            pattern = get_pattern_from_sequence(expected)
+            self._regions = {pattern: fregion(pattern)}
 
         elif isinstance(self.regions, str):
             regions = get_regions_from_pattern(expected, self.regions)
-- 
2.43.0


From 6a83dc6f2df585d4bcda56c592ee958a764286aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 21/43] fix: activate output streams from stored settings

---
 dream/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dream/io.py b/dream/io.py
index ca7343d..d1c6d11 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -65,8 +65,11 @@ class stream(configuration):
 
     def __set__(self, cfg: CONFIG, stream: bool) -> None:
 
-        if isinstance(stream, str) and stream == self.__name__:
-            stream = True
+        if isinstance(stream, str):
+            handler = self.fset(cfg, True)
+            if stream in (self.__name__, handler.name):
+                cfg.data[self.__name__] = handler
+                return
 
         if not isinstance(stream, bool):
             raise ValueError(f"Pass boolean to activate/deactivate handler")
-- 
2.43.0


From d5a2ae4d0ea8ed2ff7f596ffb34edfe64b68b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 22/43] fix: update settings which are not activated yet

---
 dream/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dream/config.py b/dream/config.py
index 7bb277b..506a0c9 100644
--- a/dream/config.py
+++ b/dream/config.py
@@ -354,15 +354,17 @@ class UniqueConfiguration(typing.MutableMapping):
         if dict is not None:
             kwargs.update(dict)
 
+        predefined = {*self, *(cfg.__name__ for cfg in self.cfgs)}
+
         for key in list(kwargs):
 
             match key.split("."):
 
-                case [key_] if key_ in self:
+                case [key_] if key_ in predefined:
                     self[key_] = kwargs.pop(key)
-                case [key_, *args] if key_ not in kwargs and key_ in self:
+                case [key_, *args] if key_ not in kwargs and key_ in predefined:
                     kwargs[key_] = {".".join(args): kwargs.pop(key)}
-                case [key_, *args] if key_ in kwargs and key_ in self:
+                case [key_, *args] if key_ in kwargs and key_ in predefined:
                     kwargs[key_][".".join(args)] = kwargs.pop(key)
                 case _:
                     kwargs.pop(key)
-- 
2.43.0


From 0aeccb1b17ff043c7e8dcd57d515178df145ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 23/43] fix: store sensors with the settings

---
 dream/io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index d1c6d11..b5619bd 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -93,6 +93,10 @@ class sensor(configuration):
         if self.__name__ not in cfg.data:
             cfg.data[self.__name__] = {}
 
+        if isinstance(name, dict):
+            cfg.data[self.__name__].update(name)
+            return
+
         sensor = self.fset(cfg, name)
         if isinstance(sensor, Sensor):
             cfg.data[self.__name__][sensor.sensor_name] = sensor
@@ -669,6 +673,10 @@ class SensorStream(Stream):
 
 class Sensor(UniqueConfiguration):
 
+    def __getstate__(self) -> dict[str, typing.Any]:
+        # The solver configuration, the mesh and the compound field are set by opening the sensor
+        return {'data': self.data}
+
     @configuration(default=None)
     def sensor_name(self, name: str):
         return name
-- 
2.43.0


From e1cb19ae4f5f3e34ccdabd853014d402a4625c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 24/43] fix: label the components of rectangular matrices

---
 dream/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index b5619bd..efc2432 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -727,7 +727,9 @@ class Sensor(UniqueConfiguration):
         elif bla.is_matrix(cf) and cf.dim <= 9:
             if tuple(cf.dims) == (2, 2):
                 return (bla.MATRIX_COMPONENT[0], bla.MATRIX_COMPONENT[1], bla.MATRIX_COMPONENT[3], bla.MATRIX_COMPONENT[4])
-            return bla.MATRIX_COMPONENT
+            if tuple(cf.dims) == (3, 3):
+                return bla.MATRIX_COMPONENT
+            return tuple(range(cf.dim))
         else:
             return tuple(range(cf.dim))
 
-- 
2.43.0


From 00907f5673390f79f66d30bf4607eee559d37b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 25/43] fix: reject sensors sharing the same file

---
 dream/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index efc2432..c8a634e 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -584,6 +584,10 @@ class SensorStream(Stream):
         self.sensors: tuple[Sensor] = tuple(sensor_ for config in self.get_configurations(sensor)
                                             for sensor_ in self[config.__name__].values())
 
+        names = [instance.sensor_name for instance in self.sensors]
+        if len(set(names)) != len(names):
+            raise ValueError("Sensor names are not unique!")
+
         for instance in self.sensors:
             instance.cfg = self.cfg
             instance.mesh = self.mesh
-- 
2.43.0


From 59c0dac2925bd5dfe995472b5acdc9ac60414d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 26/43] fix: close the opened files if a stream can not be
 opened

---
 dream/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index c8a634e..ef028e0 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -955,7 +955,11 @@ class IOConfiguration(UniqueConfiguration):
             stream.close()
 
     def __enter__(self):
-        self.open()
+        try:
+            self.open()
+        except Exception:
+            self.close()
+            raise
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
-- 
2.43.0


From a1dc53bf7486417ed390144e076f3b65b17a2ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 27/43] fix: assign relaxation factors by name

---
 dream/compressible/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dream/compressible/config.py b/dream/compressible/config.py
index 7b15889..00c0c3f 100644
--- a/dream/compressible/config.py
+++ b/dream/compressible/config.py
@@ -156,7 +156,7 @@ class CBC(Condition):
         elif isinstance(factor, (list, tuple)):
             characteristic = {key: value for key, value in zip(characteristic, factor)}
         elif isinstance(factor, dict):
-            characteristic = {key: value for key, value in zip(characteristic, factor.values())}
+            characteristic = {key: factor[key] for key in characteristic if key in factor}
         return characteristic
 
     @configuration(default=0.0)
@@ -171,7 +171,7 @@ class CBC(Condition):
 
         factors = self.relaxation_factor.copy()
         if self.mesh.dim == 2:
-            factors.pop("vorticity_1")
+            factors.pop("vorticity_1", None)
 
         return factors
 
-- 
2.43.0


From 5a0dd1d2f249ab199198126e10727985f01f878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 28/43] fix: keep the grid deformation in step with its
 mappings

---
 dream/mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dream/mesh.py b/dream/mesh.py
index 854ce53..71fe143 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -332,19 +332,19 @@ class GridDeformation(Buffer):
     @configuration(default=None)
     def x(self, x) -> GridMapping:
         map = self.check_mapping(x, ngs.x)
-        self.set_function(x=x)
+        self.set_function(x=map)
         return map
 
     @configuration(default=None)
     def y(self, y) -> GridMapping:
         map = self.check_mapping(y, ngs.y)
-        self.set_function(y=y)
+        self.set_function(y=map)
         return map
 
     @configuration(default=None)
     def z(self, z) -> GridMapping:
         map = self.check_mapping(z, ngs.z)
-        self.set_function(z=z)
+        self.set_function(z=map)
         return map
 
     def set_function(self, x: GridMapping = None, y: GridMapping = None, z: GridMapping = None) -> None:
-- 
2.43.0


From 52b5fc0fd5d9177bdaecc07b9042b297b42bc789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 29/43] fix: apply the dimension of a grid deformation to its
 mappings

---
 dream/mesh.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dream/mesh.py b/dream/mesh.py
index 71fe143..8204f45 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -327,7 +327,10 @@ class GridDeformation(Buffer):
 
     @configuration(default=2)
     def dim(self, dim) -> int:
-        return int(dim)
+        dim = int(dim)
+        if self.data.get('function') is not None:
+            self.set_function(dim=dim)
+        return dim
 
     @configuration(default=None)
     def x(self, x) -> GridMapping:
@@ -347,7 +350,11 @@ class GridDeformation(Buffer):
         self.set_function(z=map)
         return map
 
-    def set_function(self, x: GridMapping = None, y: GridMapping = None, z: GridMapping = None) -> None:
+    def set_function(self, x: GridMapping = None, y: GridMapping = None, z: GridMapping = None,
+                     dim: int = None) -> None:
+
+        if dim is None:
+            dim = self.dim
 
         if x is None:
             x = self.data.get("x", GridMapping.none(ngs.x))
@@ -358,7 +365,7 @@ class GridDeformation(Buffer):
         if z is None:
             z = self.data.get("z", GridMapping.none(ngs.z))
 
-        self.function = ngs.CF(tuple(map.deformation for map in (x, y, z)[:self.dim]))
+        self.function = ngs.CF(tuple(map.deformation for map in (x, y, z)[:dim]))
 
     @classmethod
     def get_space(cls, grid_deformations: dict[str, GridDeformation], mesh: ngs.Mesh) -> ngs.VectorH1:
-- 
2.43.0


From cd28570f60d44a026b14b13753cc5bad273fe9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 30/43] fix: assemble the linear form which enters the residual

---
 dream/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dream/solver.py b/dream/solver.py
index 1a7fc1c..04c4f39 100644
--- a/dream/solver.py
+++ b/dream/solver.py
@@ -237,6 +237,7 @@ class DirectNonlinearSolver(NonlinearSolver, skip=True):
 
     def solve_update_step(self):
 
+        self.lf.Assemble()
         self.blf.Apply(self.gfu.vec, self.residual)
         self.residual.data -= self.lf.vec
         self.blf.AssembleLinearization(self.gfu.vec)
-- 
2.43.0


From bcf0ca2ede2109fb64f5107802c5bb11fb644623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 31/43] fix: close the sensor files when opening them fails

---
 dream/io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dream/io.py b/dream/io.py
index ef028e0..054333a 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -594,7 +594,11 @@ class SensorStream(Stream):
             instance.open()
 
         if self.to_csv:
-            self.open_csv_writers()
+            try:
+                self.open_csv_writers()
+            except Exception:
+                self.close()
+                raise
 
         return self
 
@@ -605,13 +609,12 @@ class SensorStream(Stream):
         for sensor in self.sensors:
             file = self.path.joinpath(sensor.sensor_name + ".csv").open(self.mode)
             writer = csv.writer(file)
+            self.csv[sensor.sensor_name] = (file, writer)
 
             if self.mode == "w":
                 for name, value in self.get_header(sensor).items():
                     writer.writerow([name, *value])
 
-            self.csv[sensor.sensor_name] = (file, writer)
-
     def get_header(self, sensor: Sensor) -> dict[str, list[str]]:
         header = sensor.get_header()
 
-- 
2.43.0


From 22043f7ea63ffdab000cbd6d39b4bb33bc97e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 32/43] fix: keep the columns of stationary sensor tables
 aligned with their header

---
 dream/io.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dream/io.py b/dream/io.py
index 054333a..5408e9e 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -631,8 +631,7 @@ class SensorStream(Stream):
 
         for sensor, data in self.measure():
 
-            if t is not None:
-                data = [t, *data]
+            data = [' ' if t is None else t, *data]
 
             if self.to_csv:
                 self.csv[sensor.sensor_name][1].writerow(data)
@@ -647,7 +646,7 @@ class SensorStream(Stream):
         for sensor, data in self.measure():
             if t is None:
                 if self.to_csv:
-                    self.csv[sensor.sensor_name][1].writerow(data)
+                    self.csv[sensor.sensor_name][1].writerow([' ', *data])
             elif not it % sensor.rate == 0:
                 if self.to_csv:
                     self.csv[sensor.sensor_name][1].writerow([t, *data])
-- 
2.43.0


From 18ffc9bdead796d4e5628ab5fcb9dce60e147a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 33/43] fix: close the log file when it is deactivated

---
 dream/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index 5408e9e..d036b0e 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -509,6 +509,7 @@ class LogStream(Stream):
 
         if hasattr(self, 'file_handler'):
             self.logger.removeHandler(self.file_handler)
+            self.file_handler.close()
 
         if to_file:
             self.file_handler = logging.FileHandler(self.path.joinpath(self.filename + ".log"))
@@ -529,6 +530,7 @@ class LogStream(Stream):
             self.logger.removeHandler(self.terminal_handler)
         if hasattr(self, 'file_handler'):
             self.logger.removeHandler(self.file_handler)
+            self.file_handler.close()
 
 
 class SensorStream(Stream):
-- 
2.43.0


From bd817edb7abbee9f7d23a74f1c312af16eb6da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 34/43] fix: apply the format of the log level to the active
 handlers

---
 dream/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index d036b0e..b80f30f 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -489,6 +489,10 @@ class LogStream(Stream):
         else:
             self.formatter = logging.Formatter("%(name)-15s (%(levelname)s) | %(message)s")
 
+        for handler in ('terminal_handler', 'file_handler'):
+            if hasattr(self, handler):
+                getattr(self, handler).setFormatter(self.formatter)
+
         return level
 
     @configuration(default=True)
-- 
2.43.0


From 906ab9a555be3e8f9895a18161bc227b9251317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 35/43] fix: select options before their own settings are
 updated

---
 dream/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dream/config.py b/dream/config.py
index 506a0c9..97c12f7 100644
--- a/dream/config.py
+++ b/dream/config.py
@@ -356,7 +356,8 @@ class UniqueConfiguration(typing.MutableMapping):
 
         predefined = {*self, *(cfg.__name__ for cfg in self.cfgs)}
 
-        for key in list(kwargs):
+        # Options are set before their own settings, hence keys with dots come last
+        for key in sorted(kwargs, key=lambda key: "." in key):
 
             match key.split("."):
 
-- 
2.43.0


From 510f1efe07a40a16438c197e873a4ad68fbd3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 36/43] fix: update streams from nested settings

---
 dream/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index b80f30f..dac223a 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -71,6 +71,10 @@ class stream(configuration):
                 cfg.data[self.__name__] = handler
                 return
 
+        if isinstance(stream, dict):
+            self.__get__(cfg, type(cfg)).update(stream)
+            return
+
         if not isinstance(stream, bool):
             raise ValueError(f"Pass boolean to activate/deactivate handler")
 
-- 
2.43.0


From 6fcc1c9c04b06503c404b57a96795650a834c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 37/43] fix: keep deactivated streams in the exported settings

---
 dream/io.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dream/io.py b/dream/io.py
index dac223a..88bdd4d 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -919,6 +919,16 @@ class IOConfiguration(UniqueConfiguration):
     def folders(self, folders: IOFolders):
         return folders
 
+    def to_tree(self, data: dict | None = None, root: str = "") -> dict[str, typing.Any]:
+        data = super().to_tree(data, root)
+
+        # Deactivated streams stay deactivated when the settings are applied again
+        for cfg in self.cfgs:
+            if isinstance(cfg, stream) and cfg.__name__ not in self:
+                data[f"{root}.{cfg.__name__}" if root else cfg.__name__] = False
+
+        return data
+
     def draw(self, fields: ngsdict, **kwargs):
         if is_notebook():
             from ngsolve.webgui import Draw
-- 
2.43.0


From 873d22b87a6c8caa20632214e1df303a08f5ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 38/43] fix: keep the first row of stationary sensor tables
 loaded as dataframes

---
 dream/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 88bdd4d..21dd4ab 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -661,12 +661,16 @@ class SensorStream(Stream):
                 if self.to_csv:
                     self.csv[sensor.sensor_name][1].writerow([t, *data])
 
-    def load_as_dataframe(self, sensor: Sensor | str, header: tuple = [0, 1, 2, 3], index_col: int = [0], **pd_kwargs):
+    def load_as_dataframe(self, sensor: Sensor | str, header: tuple = 'auto', index_col: int = [0], **pd_kwargs):
         import pandas as pd
 
         if isinstance(sensor, Sensor):
             sensor = sensor.sensor_name
 
+        if isinstance(header, str) and header == 'auto':
+            # Tables of stationary simulations have no row for the time
+            header = [0, 1, 2] if self.cfg.time.is_stationary else [0, 1, 2, 3]
+
         return pd.read_csv(self.path.joinpath(sensor + ".csv"), header=header, index_col=index_col, **pd_kwargs)
 
     def measure(self) -> typing.Generator[tuple[Sensor, np.ndarray], None, None]:
-- 
2.43.0


From aa3c864e5a632c448bedc4741629d9f1f17f549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 39/43] fix: let containers redefine an inherited quantity

---
 dream/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/config.py b/dream/config.py
index 97c12f7..c7c877c 100644
--- a/dream/config.py
+++ b/dream/config.py
@@ -93,7 +93,7 @@ class ngsdict(typing.MutableMapping):
     def __init_subclass__(cls) -> None:
         symbols = {symbol: value.name for symbol, value in vars(cls).items() if isinstance(value, quantity)}
         if hasattr(cls, "symbols"):
-            symbols.update(cls.symbols)
+            symbols = {**cls.symbols, **symbols}
         cls.symbols = symbols
         return super().__init_subclass__()
 
-- 
2.43.0


From e3db4114546287bd203e1fe546229b6d4dcd60ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:34 +0000
Subject: [PATCH 40/43] fix: accept both orders of a polynomial sponge in any
 order

---
 dream/mesh.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dream/mesh.py b/dream/mesh.py
index 8204f45..2046f36 100644
--- a/dream/mesh.py
+++ b/dream/mesh.py
@@ -466,6 +466,19 @@ class PSpongeLayer(SpongeLayer):
 
         return int(low_order)
 
+    def update(self, dict=None, **kwargs):
+
+        if dict is not None:
+            kwargs.update(dict)
+
+        # The orders bound each other, hence the one which makes room for the other is set first
+        names = ["high_order", "low_order"]
+        if kwargs.get("high_order", self.high_order) < self.low_order:
+            names.reverse()
+
+        orders = {name: kwargs.pop(name) for name in names if name in kwargs}
+        super().update({**orders, **kwargs})
+
     @property
     def is_equal_order(self) -> bool:
         return self.high_order == self.low_order
-- 
2.43.0


From 22315f1dba6f8839497fd7701eb4ab18b1fd3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:35 +0000
Subject: [PATCH 41/43] fix: keep the time derivatives of all unknowns in the
 residual

---
 dream/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/time.py b/dream/time.py
index a3308e2..762e180 100644
--- a/dream/time.py
+++ b/dream/time.py
@@ -154,7 +154,7 @@ class ImplicitSchemes(TimeSchemes, skip=True):
         gfus = self.gfus[variable].copy()
         gfus['n+1'] = u
 
-        blf[f'time'] = ngs.InnerProduct(self.get_time_derivative(gfus), v) * self.dx[variable]
+        blf[f'time_{variable}'] = ngs.InnerProduct(self.get_time_derivative(gfus), v) * self.dx[variable]
 
     def get_time_derivative(self, gfus: dict[str, ngs.GridFunction]) -> ngs.CF:
         raise NotImplementedError()
-- 
2.43.0


From 28e711eec5bb5b37a5da77af0551d3e44e1368cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:18 +0000
Subject: [PATCH 42/43] fix: move a folder along with the root which takes its
 place

---
 dream/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/io.py b/dream/io.py
index 21dd4ab..8443aad 100644
--- a/dream/io.py
+++ b/dream/io.py
@@ -53,7 +53,7 @@ class path(configuration):
         if old is not None:
 
             for key, path in cfg.data.items():
-                if path == cfg.data[self.__name__]:
+                if key == self.__name__:
                     continue
                 elif path == old and self.__name__ != 'root':
                     continue
-- 
2.43.0


From 3462d2d33c631f01bf60b4428702623e71946df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:16 +0000
Subject: [PATCH 43/43] fix: select an option by its name while one derived
 from it is in force

---
 dream/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dream/config.py b/dream/config.py
index c7c877c..589c371 100644
--- a/dream/config.py
+++ b/dream/config.py
@@ -280,7 +280,7 @@ class interface(unique):
 
         elif isinstance(value, str):
             cfg_ = self.default.tree[value]
-            if not isinstance(cfg.data[self.__name__], cfg_):
+            if type(cfg.data[self.__name__]) is not cfg_:
                 cfg.data[self.__name__] = cfg_(cfg=cfg.cfg, mesh=cfg.mesh)
 
         elif isinstance(value, dict):
-- 
2.43.0

