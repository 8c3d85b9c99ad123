From d5704f751bd9fa830f94c16dce24916f0a059792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 01/95] fix: query the converter at the end of each integration
 interval so that commanded states apply after the dead time

---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 5e8640e..2d6d20c 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -177,7 +177,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
@@ -185,7 +185,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -496,7 +496,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -506,7 +506,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -627,7 +627,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+            u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
             self._ode_solver.set_f_params(u_dq_e)
@@ -638,7 +638,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -783,7 +783,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -793,7 +793,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -989,7 +989,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1008,7 +1008,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From a66472a49f1000a67deefa8b5eff44ee85f814bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 02/95] fix: forward the system's sampling time to the half
 bridges of the 4QC and B6 converters

---
 .../physical_systems/converters.py            | 44 +++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 2327ec4..9a3a006 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -333,6 +333,17 @@ class FiniteFourQuadrantConverter(FiniteConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Discrete(4)
 
+    @property
+    def tau(self):
+        # Docstring in base class
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for subconverter in self._subconverters:
+            subconverter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -460,6 +471,17 @@ class ContFourQuadrantConverter(ContDynamicallyAveragedConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Box(-1, 1, shape=(1,), dtype=np.float64)
 
+    @property
+    def tau(self):
+        # Docstring in base class
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for subconverter in self._subconverters:
+            subconverter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -796,6 +818,17 @@ class FiniteB6BridgeConverter(FiniteConverter):
         [1, 1, 1],
     ]
 
+    @property
+    def tau(self):
+        # Docstring in base class
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for subconverter in self._sub_converters:
+            subconverter.tau = value
+
     def __init__(self, tau=1e-5, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
@@ -868,6 +901,17 @@ class ContB6BridgeConverter(ContDynamicallyAveragedConverter):
 
     _reset_action = [0, 0, 0]
 
+    @property
+    def tau(self):
+        # Docstring in base class
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for subconverter in self._subconverters:
+            subconverter.tau = value
+
     def __init__(self, tau=1e-4, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
-- 
2.43.0


From c61147f8c307ae26cad83ce31d9625913d78b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 03/95] fix: load the supply with the current of the switching
 state that is applied, not of the previous one

---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 2d6d20c..9b655d9 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -175,17 +175,17 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
             i_in = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
 
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -494,9 +494,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -504,9 +504,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
             eps = ode_state[self._ode_epsilon_idx]
             i_in = self.dq_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]), eps)
 
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -625,9 +625,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in_abc_e, t)
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
             self._ode_solver.set_f_params(u_dq_e)
@@ -636,9 +636,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
             i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
 
+        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -781,9 +781,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -791,9 +791,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
             eps_fs = self.calculate_field_angle(ode_state)
             i_in = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
 
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -987,9 +987,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1006,9 +1006,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
             i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
 
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From 51feb2cb2dd6e7ca474f916eb5f3960cfa5fafcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 04/95] fix: system equation returns a fresh array, the solvers
 keep the derivatives of several stages

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 9b655d9..52d181c 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -233,7 +233,8 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
                 motor_state, u_in, state[self._omega_ode_idx]
             ).ravel()
 
-        return self._system_eq_placeholder
+        # The solvers keep the returned derivatives (e.g. of intermediate stages). Hence, a new array is returned.
+        return self._system_eq_placeholder.copy()
 
     def _system_jacobian(self, t, state, u_in, **__):
         motor_state = state[self._motor_ode_idx]
-- 
2.43.0


From 238fdb77ec63ab3125e031036df3d37e0092e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 05/95] fix: transform the reported currents with the angles of
 the reported state, not with those of the previous step

---
 .../physical_systems/physical_systems.py                 | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 52d181c..9357966 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -517,7 +517,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq, eps))
+        i_abc = list(self.dq_to_abc_space(i_dq, ode_state[self._ode_epsilon_idx]))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
@@ -649,7 +649,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq_e = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
+        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], ode_state[self._ode_epsilon_idx]))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
@@ -804,6 +804,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         self._k += 1
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
+        eps_fs = self.calculate_field_angle(ode_state)
         i_dq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_fs)
         i_abc = list(self.dq_to_abc_space(i_dq, eps_fs))
 
@@ -1025,6 +1026,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         self._k += 1
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
+        eps_field = self.calculate_field_angle(ode_state)
+        eps_el = ode_state[self._ode_epsilon_idx]
 
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = list(self.dq_to_abc_space(i_sdq, eps_field))
@@ -1032,7 +1035,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
         i_rdef = list(self.dq_to_abc_space(i_rdq, eps_field - eps_el))
 
-        eps_el = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
+        eps_el %= 2 * np.pi
         if eps_el > np.pi:
             eps_el -= 2 * np.pi
 
-- 
2.43.0


From a5ee4c330e9c26d8ca37fcfd1edfbbd3fd984bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 06/95] fix: EESM systems with interlocking time split the
 three stator quantities from the excitation

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 9357966..fe0e4f8 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -630,12 +630,12 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
-            u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
+            u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
             ode_state = self._ode_solver.integrate(t)
             eps = ode_state[self._ode_epsilon_idx]
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
-            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
+            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
 
         u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in_abc_e)
-- 
2.43.0


From 3e474a4e9021cd714d2db9aaf1721f71afa111c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 07/95] fix: order of the voltages in the EESM reset state

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index fe0e4f8..543ea8d 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -685,8 +685,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
                 [torque],
                 i_abc,
                 i_dq,
-                u_abc,
+                u_abc[:3],
                 u_dq,
+                u_abc[3:],
                 [eps],
                 u_sup,
             )
-- 
2.43.0


From 41e182e3dec3b13d7492e3a94cfbbcb1afbbfb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 08/95] fix: coordinate frames of the DFIM rotor currents at
 reset and at the rotor side converter

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 543ea8d..a065f6e 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -986,7 +986,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         eps_el = ode_state[self._ode_epsilon_idx]
 
         i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-        i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+        i_rdef = self.alphabeta_to_abc_space(self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_el))
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
@@ -1007,7 +1007,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             eps_field = self.calculate_field_angle(ode_state)
             eps_el = ode_state[self._ode_epsilon_idx]
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-            i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+            i_rdef = self.alphabeta_to_abc_space(self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_el))
 
         u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
@@ -1092,7 +1092,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = self.dq_to_abc_space(i_sdq, eps_field)
 
-        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field - eps_el)
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
         i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         torque = self.electrical_motor.torque(motor_state)
-- 
2.43.0


From 4688c9e4a28ad529f40901279af7e08074c35401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 09/95] fix: return the initial motor states in the order of
 the motor's ODE, not of the initializer's keys

---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/electric_motors/induction_motor.py         | 2 +-
 .../physical_systems/electric_motors/synchronous_motor.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index e3ad6d8..2564daf 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -280,7 +280,7 @@ class ElectricMotor(RandomComponent):
         self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS])
         else:
             return np.zeros(len(self.CURRENTS))
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 843cce8..b0b2ab9 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -180,7 +180,7 @@ class InductionMotor(ThreePhaseMotor):
         if self._initializer and self._initializer["states"]:
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + self.FLUXES + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + len(self.FLUXES) + 1)
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index f6b25d1..3aeb428 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -126,7 +126,7 @@ class SynchronousMotor(ThreePhaseMotor):
         # Docstring of superclass
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + 1)
 
-- 
2.43.0


From dd6d8cc4d8e663384ce70dd74937ec13c8633d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 10/95] fix: draw gaussian initial states from the component's
 random generator, not the same value every episode

---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 2564daf..52cdf10 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -247,7 +247,7 @@ class ElectricMotor(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index d158070..4b88f28 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -148,7 +148,7 @@ class MechanicalLoad(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From 2a54bd9c55bcc5dba7143f33971a7bb16611cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 11/95] fix: draw the field angle of the initial flux limits
 from the motor's seeded random generator

---
 .../electric_motors/doubly_fed_induction_motor.py               | 2 +-
 .../electric_motors/squirrel_cage_induction_motor.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 1eebccc..7ca78ca 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -154,7 +154,7 @@ class DoublyFedInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = self.random_generator.uniform(-np.pi, np.pi)
         flux_alphabeta_limits = self._flux_limit(
             omega=omega,
             eps_mag=eps_mag,
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index 7730357..b284c00 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -146,7 +146,7 @@ class SquirrelCageInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = self.random_generator.uniform(-np.pi, np.pi)
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
-- 
2.43.0


From bdbda513a87c9cac03f2060d59b52b707fed64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 12/95] fix: DFIM instances do not extend the IO lists shared
 by all motors

---
 .../electric_motors/doubly_fed_induction_motor.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 7ca78ca..ef3f17f 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -128,8 +128,8 @@ class DoublyFedInductionMotor(InductionMotor):
     }
 
     def __init__(self, **kwargs):
-        self.IO_VOLTAGES += self.IO_ROTOR_VOLTAGES
-        self.IO_CURRENTS += self.IO_ROTOR_CURRENTS
+        self.IO_VOLTAGES = self.IO_VOLTAGES + self.IO_ROTOR_VOLTAGES
+        self.IO_CURRENTS = self.IO_CURRENTS + self.IO_ROTOR_CURRENTS
         super().__init__(**kwargs)
 
     def _update_limits(self, limit_values={}, nominal_values={}):
-- 
2.43.0


From b1c562a9bea9a89d6d1ea97bb738771acd6759fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 13/95] fix: loads copy their initial states instead of
 altering the class defaults and the user's dict

---
 .../physical_systems/mechanical_loads/mechanical_load.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 4b88f28..d00ed80 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -95,6 +95,9 @@ class MechanicalLoad(RandomComponent):
         load_initializer = load_initializer or {}
         self._initializer = self._default_initializer.copy()
         self._initializer.update(load_initializer)
+        if "states" in self._initializer:
+            # The initial states are altered by the load. Hence, neither the defaults nor the user's dict are used.
+            self._initializer["states"] = dict(self._initializer["states"])
         self._initial_states = self._initializer.get("states", {state: 0.0 for state in self._state_names})
 
     def initialize(self, state_space, state_positions, nominal_state, **__):
-- 
2.43.0


From f4e1722a794cd6b3459857f12f643e5dbf7db397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 14/95] fix: initial flux limits of induction motors do not
 depend on the previous episode

---
 .../physical_systems/electric_motors/induction_motor.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index b0b2ab9..5461d30 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -178,6 +178,9 @@ class InductionMotor(ThreePhaseMotor):
     def reset(self, state_space, state_positions, omega=None):
         # Docstring of superclass
         if self._initializer and self._initializer["states"]:
+            # The flux limits depend on the requested initial states, not on those of the previous episode
+            self._initial_states.update(self._default_initializer["states"])
+            self._initial_states.update(self._initializer["states"])
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
             return np.asarray([self._initial_states[state] for state in self.CURRENTS + self.FLUXES + ["epsilon"]])
-- 
2.43.0


From 5aae3fe83914d4a61d86dd026779e8e4e71b509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 15/95] fix: OrnsteinUhlenbeckLoad can be instantiated and
 draws from its seeded random generator

---
 .../mechanical_loads/ornstein_uhlenbeck_load.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 18d0dca..61568a9 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -19,22 +19,22 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
             kwargs(dict): further arguments passed to the superclass :py:class:`.MechanicalLoad`
         """
         super().__init__(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega_range = omega_range
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         self.theta = theta
         self.mu = mu
         self.tau = tau
         self.sigma = sigma
-        self._omega_range = omega_range
 
     def mechanical_ode(self, t, mechanical_state, torque):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * np.random.normal(size=1)
+        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
     def reset(self, **kwargs):
         super().reset(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         return self._omega
-- 
2.43.0


From 07b8a3c49ea4d51a77c71039cc49c7eebde62563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 16/95] fix: a reset without seed keeps the seeded random
 components instead of reseeding them from the OS

---
 src/gym_electric_motor/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 47b5f2a..b87023b 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -306,7 +306,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
              info(dict): Auxiliary information (optional)
         """
 
-        self._seed(seed)
+        if seed is not None:
+            self._seed(seed)
         self._call_callbacks("on_reset_begin")
         self._terminated = False
         state = self._physical_system.reset()
-- 
2.43.0


From e54e6886876296b2960d030a0b27f93d6671b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 17/95] fix: constraints given as plain callables are monitored

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index b87023b..2cc029c 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -258,7 +258,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if isinstance(constraint, Constraint)]
+            additional_constraints = [constraint for constraint in constraints if not isinstance(constraint, str)]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From e4879705d0eb080a5291762220bebdd690bee342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 18/95] fix: simulation and workspace data belong to the
 environment instance

---
 src/gym_electric_motor/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 2cc029c..46b0f79 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -231,6 +231,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             **kwargs: Arguments to be passed to the modules.
         """
 
+        self.sim = SimulationEnvironment()
+        self.workspace = Workspace()
         self.sim.tau = physical_system.tau
 
         # TODO physical_system etc should be initialized by the caller
-- 
2.43.0


From b8c949c9b006c24650c43d0b04c5ed8a4a1dd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 19/95] fix: torque limit of PMSMs with l_d > l_q

---
 .../electric_motors/permanent_magnet_synchronous_motor.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
index c2e098f..1558d48 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
@@ -127,7 +127,10 @@ class PermanentMagnetSynchronousMotor(SynchronousMotor):
             i_n = self.nominal_values["i"]
             _p = mp["psi_p"] / (2 * (mp["l_d"] - mp["l_q"]))
             _q = -(i_n**2) / 2
-            i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            if mp["l_d"] < mp["l_q"]:
+                i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            else:
+                i_d_opt = -_p / 2 + np.sqrt((_p / 2) ** 2 - _q)
             i_q_opt = np.sqrt(i_n**2 - i_d_opt**2)
             return self.torque([i_d_opt, i_q_opt, 0])
 
-- 
2.43.0


From 33fbb2c94ab0e8cc098ccf47cb117f385380fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 20/95] fix: torque limit of SynRMs with l_d < l_q is positive

---
 .../electric_motors/synchronous_reluctance_motor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
index 603b953..b2a8b91 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
@@ -131,7 +131,7 @@ class SynchronousReluctanceMotor(SynchronousMotor):
 
     def _torque_limit(self):
         # Docstring of superclass
-        return self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0])
+        return abs(self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0]))
 
     def torque(self, currents):
         # Docstring of superclass
-- 
2.43.0


From 7587c2b847b13894b8eb7f400793fe3919679cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 21/95] fix: EulerSolver with multiple steps evaluates the
 system equation at the times of its steps

---
 src/gym_electric_motor/physical_systems/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 31748df..88a863a 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -112,9 +112,9 @@ class EulerSolver(OdeSolver):
         """
         tau = (t - self._t) / self._nsteps
         state = self._y
-        current_t = t
+        current_t = self._t
         for _ in range(self._nsteps):
-            delta = self._system_equation(current_t + tau, state, *self._f_params) * tau
+            delta = self._system_equation(current_t, state, *self._f_params) * tau
             state = state + delta
             current_t += tau
         self._y = state
-- 
2.43.0


From fe2c92a70e98a52d43f262106b10fcf9252f011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 22/95] fix: finite two quadrant converter switches off on
 reset

---
 src/gym_electric_motor/physical_systems/converters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 9a3a006..411c165 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -267,6 +267,12 @@ class FiniteTwoQuadrantConverter(FiniteConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Discrete(3)
 
+    def reset(self):
+        # Docstring in base class
+        # Both transistors are off again. Hence, the first action needs no interlocking time.
+        self._switching_state = 0
+        return super().reset()
+
     def convert(self, i_out, t):
         # Docstring in base class
         # Converter switches slightly (tau / 1000 seconds) before interlocking time due to inaccuracy of the solvers.
-- 
2.43.0


From f1314f257c980f6a534faa3d35e9cc974b7b5224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 23/95] fix: AC supplies draw their phase from a seeded random
 generator and keep the user's parameter dict

---
 .../physical_systems/voltage_supplies.py      | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index 9dcba41..e0da7b0 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -4,6 +4,8 @@ import numpy as np
 
 from gym_electric_motor.physical_systems.solvers import EulerSolver
 
+from ..random_component import RandomComponent
+
 
 class VoltageSupply:
     """Base class for all VoltageSupplies to be used in a SCMLSystem.
@@ -123,7 +125,7 @@ class RCVoltageSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC1PhaseSupply(VoltageSupply):
+class AC1PhaseSupply(VoltageSupply, RandomComponent):
     """AC one phase voltage supply"""
 
     def __init__(self, u_nominal=230, supply_parameter=None):
@@ -133,7 +135,8 @@ class AC1PhaseSupply(VoltageSupply):
             supply_parameter(dict): Consists of frequency f in Hz and phase phi in range of [0,2*pi) in case you wish for a fixed phase
         """
 
-        super().__init__(u_nominal)
+        VoltageSupply.__init__(self, u_nominal)
+        RandomComponent.__init__(self)
 
         self._fixed_phi = False
         if supply_parameter is not None:
@@ -144,11 +147,10 @@ class AC1PhaseSupply(VoltageSupply):
                     0 <= supply_parameter["phase"] < 2 * np.pi
                 ), "The phase angle has to be given in rad in range [0,2*pi)"
                 self._fixed_phi = True
-                supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = {**supply_parameter, "phase": self.random_generator.uniform(0, 2 * np.pi)}
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.uniform(0, 2 * np.pi)}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -156,8 +158,9 @@ class AC1PhaseSupply(VoltageSupply):
         self.supply_range = [-1 * self._max_amp, self._max_amp]
 
     def reset(self):
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.uniform(0, 2 * np.pi)
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
@@ -166,7 +169,7 @@ class AC1PhaseSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC3PhaseSupply(VoltageSupply):
+class AC3PhaseSupply(VoltageSupply, RandomComponent):
     """AC three phase voltage supply"""
 
     voltage_len = 3
@@ -178,7 +181,8 @@ class AC3PhaseSupply(VoltageSupply):
             supply_parameter(dict): Consists of frequency f in Hz and phase phi in range of [0,2*pi) in case you wish for a fixed phase
         """
 
-        super().__init__(u_nominal)
+        VoltageSupply.__init__(self, u_nominal)
+        RandomComponent.__init__(self)
         self._fixed_phi = False
         if supply_parameter is not None:
             assert isinstance(supply_parameter, dict), "supply_parameter should be a dict"
@@ -188,11 +192,10 @@ class AC3PhaseSupply(VoltageSupply):
                     0 <= supply_parameter["phase"] < 2 * np.pi
                 ), "The phase angle has to be given in rad in range [0,2*pi)"
                 self._fixed_phi = True
-                supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = {**supply_parameter, "phase": self.random_generator.uniform(0, 2 * np.pi)}
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.uniform(0, 2 * np.pi)}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -201,8 +204,9 @@ class AC3PhaseSupply(VoltageSupply):
 
     def reset(self):
         # Docstring of superclass
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.uniform(0, 2 * np.pi)
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
-- 
2.43.0


From 7835918de78beead77b86d246a24ff062ef843bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 24/95] fix: product merge of violation degrees gets the list
 of degrees it is called with

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 46b0f79..2f77d34 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -817,7 +817,7 @@ class ConstraintMonitor:
             self._merge_violations = max
         elif merge_violations == "product":
 
-            def product_merge(*violation_degrees):
+            def product_merge(violation_degrees):
                 return 1 - np.prod([(1 - violation) for violation in violation_degrees])
 
             self._merge_violations = product_merge
-- 
2.43.0


From 6ffd7e544e4c9f08c8c5e96fedb795739e181d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 25/95] fix: seeding a physical system wrapper seeds its own
 random generator, too

---
 .../physical_system_wrappers/physical_system_wrapper.py      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index bb4332c..c40757f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 import gym_electric_motor as gem
 
 from ..random_component import RandomComponent
@@ -107,8 +109,11 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
 
     def seed(self, seed=None):
         # docstring of super class RandomComponent
+        if seed is None:
+            seed = np.random.SeedSequence()
         if isinstance(self._physical_system, RandomComponent):
             self._physical_system.seed(seed)
+        return RandomComponent.seed(self, seed.spawn(1)[0])
 
     def __getattr__(self, name):
         return getattr(self._physical_system, name)
-- 
2.43.0


From 63c84b8bea07639f3b45afb938853957038bd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 26/95] fix: StateNoiseProcessor accepts 'all' states

---
 .../physical_system_wrappers/state_noise_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
index 76d8663..a6055b3 100644
--- a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
@@ -65,7 +65,8 @@ class StateNoiseProcessor(PhysicalSystemWrapper):
     def set_physical_system(self, physical_system):
         # Docstring from super class
         super().set_physical_system(physical_system)
-        self._state_indices = [physical_system.state_positions[state_name] for state_name in self._states]
+        states = physical_system.state_names if self._states == "all" else self._states
+        self._state_indices = [physical_system.state_positions[state_name] for state_name in states]
         return self
 
     def reset(self):
-- 
2.43.0


From 9bf29576aa23b7e19921c789cfc54b6d41537c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 27/95] fix: CosSinProcessor removes the angle from the reset
 state, too

---
 .../physical_system_wrappers/cos_sin_processor.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
index ec875f3..4420554 100644
--- a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
@@ -52,6 +52,8 @@ class CosSinProcessor(PhysicalSystemWrapper):
     def reset(self):
         # Docstring of super class
         state = self._physical_system.reset()
+        if self._remove_angle:
+            return self._delete_angle(self._get_cos_sin(state))
         return self._get_cos_sin(state)
 
     def simulate(self, action):
-- 
2.43.0


From 7fee1077dfefd32f79b013decc13654a8a58cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 28/95] fix: default reset actions of the DeadTimeProcessor for
 MultiDiscrete action spaces

---
 .../physical_system_wrappers/dead_time_processor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 44c7090..302a37f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -49,7 +49,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
             elif isinstance(action_space, gymnasium.spaces.MultiDiscrete):
-                reset_action = [np.zeros_like(action_space.nvec)]
+                reset_action = np.zeros_like(action_space.nvec)
             elif isinstance(action_space, gymnasium.spaces.Box):
                 reset_action = np.zeros(action_space.shape, dtype=np.float64)
             else:
-- 
2.43.0


From 52dc11f8c4928d222023886d93fd20f99adf0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 29/95] fix: i_sum is the normalised sum of the currents, not
 the sum of normalised currents

---
 .../physical_system_wrappers/current_sum_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
index 7efc20d..8c244aa 100644
--- a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
@@ -62,4 +62,5 @@ class CurrentSumProcessor(PhysicalSystemWrapper):
         Returns:
             float: The summation of the currents of the state.
         """
-        return np.sum(state[self._current_indices])
+        currents = state[self._current_indices] * self._limits[self._current_indices]
+        return np.sum(currents) / self._limits[-1]
-- 
2.43.0


From 59c1120f4150b02a5840744fe76ec171533b5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 30/95] fix: reference names of the ConstReferenceGenerator are
 a list of names

---
 .../reference_generators/const_reference_generator.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/const_reference_generator.py b/src/gym_electric_motor/reference_generators/const_reference_generator.py
index 82cd42a..c2f8f84 100644
--- a/src/gym_electric_motor/reference_generators/const_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/const_reference_generator.py
@@ -21,7 +21,7 @@ class ConstReferenceGenerator(ReferenceGenerator):
         self._reference_value = reference_value
         self._reference_state = reference_state.lower()
         self.reference_space = Box(np.array([reference_value]), np.array([reference_value]), dtype=np.float64)
-        self._reference_names = self._reference_state
+        self._reference_names = [self._reference_state]
 
     def set_modules(self, physical_system):
         # docstring from superclass
-- 
2.43.0


From 4b181cdfbe3ab788bb27050397f9ccdc9abc1c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 31/95] fix: tuple limit margins (lower, upper) of subepisoded
 reference generators

---
 .../reference_generators/subepisoded_reference_generator.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py b/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
index 6cf31d8..1e31cc9 100644
--- a/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
@@ -56,7 +56,7 @@ class SubepisodedReferenceGenerator(ReferenceGenerator, RandomComponent):
             lower_margin = self._limit_margin * ps.state_space.low[rs]
             self._limit_margin = lower_margin[0], upper_margin[0]
         elif type(self._limit_margin) is tuple:
-            lower_margin = self._limit_margin[0] * ps.state_space.low[rs]
+            lower_margin = abs(self._limit_margin[0]) * ps.state_space.low[rs]
             upper_margin = self._limit_margin[1] * ps.state_space.high[rs]
             self._limit_margin = lower_margin[0], upper_margin[0]
         else:
-- 
2.43.0


From d4a1c7ecd79af34d5b723bb5e5d61fee4ab21dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 32/95] fix: initial Wiener process reference does not depend
 on the length of the previous episode

---
 .../reference_generators/wiener_process_reference_generator.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index 1e5aa1e..1b56529 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -41,6 +41,8 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
             self._reference[i] = reference_value
 
     def reset(self, initial_state=None, initial_reference=None):
+        # The initial reference must not depend on the length of the previous episode
+        self.next_generator()
         if initial_reference is None:
             initial_reference = np.zeros_like(self._referenced_states, dtype=float)
             initial_reference[self._referenced_states] = self.random_generator.uniform(
-- 
2.43.0


From fc330ffa4db95cf80d615ccc88d08b1c2e32cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 33/95] fix: the PI current controller applies the clipped
 voltage, not the unclipped one

---
 src/gem_controllers/pi_current_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index b43e710..f9f8f8a 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -163,7 +163,8 @@ class PICurrentController(gc.CurrentController):
             voltage_reference = self._emf_feedforward(state, voltage_reference)
 
         # Clip the voltage inputs to the action space
-        self._voltage_reference = self._clipping_stage(state, voltage_reference)
+        voltage_reference = self._clipping_stage(state, voltage_reference)
+        self._voltage_reference = voltage_reference
 
         # Transform the voltages in the correct coordinate system
         if self._coordinate_transformation_required:
-- 
2.43.0


From 68bacdc171141bd5c3f93ee1756fa6258a4c5396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 34/95] fix: EMF feedforward of PermExDc and ExtExDc
 controllers is not switched off by a zero pole pair number

---
 src/gem_controllers/parameter_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 7f4f626..6668b0f 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -26,8 +26,8 @@ psi_reader = {
 p_reader = {
     "SeriesDc": lambda env: 1,
     "ShuntDc": lambda env: 1,
-    "ExtExDc": lambda env: 0,
-    "PermExDc": lambda env: 0,
+    "ExtExDc": lambda env: 1,
+    "PermExDc": lambda env: 1,
     "PMSM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SynRM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SCIM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
-- 
2.43.0


From 49a193ae649fbb56d7993823040c08a9d31309a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 35/95] fix: operating point selection of the PermExDc reads
 the motor's resistance

---
 .../stages/operation_point_selection/permex_dc_ops.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index aaafc52..58b6c9e 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -85,6 +85,7 @@ class PermExDcOperationPointSelection(OperationPointSelection):
         super().tune(env, env_id, current_safety_margin=current_safety_margin)
         motor = gc.utils.get_motor_type(env_id)
         self._magnetic_flux = reader.psi_reader[motor](env)
+        self._resistance = reader.r_reader[motor](env)
         voltages = reader.voltages[motor]
         voltage_indices = [env.state_names.index(voltage) for voltage in voltages]
         self._voltage_limit = env.limits[voltage_indices]
-- 
2.43.0


From a50716551741ae7fc6f2eae7c529b081d0460f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 36/95] fix: squared clipping scales the reference to the
 limit, not below it, and uses its margin

---
 .../stages/clipping_stages/combined_clipping_stage.py     | 8 +++++---
 .../stages/clipping_stages/squared_clipping_stage.py      | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 8396bc3..827e336 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -35,11 +35,13 @@ class CombinedClippingStage(ClippingStage):
 
     def __call__(self, state, reference):
         clipped = np.zeros(np.size(self._squared_clipped_states) + np.size(self._absolute_clipped_states))
-        relative_reference_length = np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        relative_reference_length = np.sqrt(
+            np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        )
         relative_maximum = 1 - self._margin
         clipped[self._squared_clipped_states] = (
             reference[self._squared_clipped_states]
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length <= relative_maximum
             else reference[self._squared_clipped_states] / relative_reference_length * relative_maximum
         )
 
@@ -82,7 +84,7 @@ class CombinedClippingStage(ClippingStage):
         state_space = env.observation_space[0]
         lower_action_limit = state_space.low[action_indices] * limits
         upper_action_limit = state_space.high[action_indices] * limits
-        self._limit_squred_clipping = limits[squared_clipped_state]
+        self._limit_squred_clipping = env.limits[action_indices][squared_clipped_state]
         self._action_range_absolute = (
             lower_action_limit[absoulte_clipped_states],
             upper_action_limit[absoulte_clipped_states],
diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index d7fede1..7e23201 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -26,7 +26,8 @@ class SquaredClippingStage(ClippingStage):
     @property
     def action_range(self):
         """Action range of the controller stage"""
-        return []
+        limits = self._limits * (1 - self._margin)
+        return -limits, limits
 
     def __init__(self, control_task="CC"):
         """
@@ -51,11 +52,11 @@ class SquaredClippingStage(ClippingStage):
             clipped_reference(np.ndarray): The reference of a controller stage clipped to the limit.
         """
 
-        relative_reference_length = np.sum((reference / self._limits) ** 2)
+        relative_reference_length = np.sqrt(np.sum((reference / self._limits) ** 2))
         relative_maximum = 1 - self._margin
         clipped = (
             reference
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length <= relative_maximum
             else reference / relative_reference_length * relative_maximum
         )
         self._clipping_difference = reference - clipped
@@ -81,6 +82,7 @@ class SquaredClippingStage(ClippingStage):
             state_names = ["torque"]
         state_indices = [env.state_names.index(state_name) for state_name in state_names]
         self._limits = env.limits[state_indices]
+        self._margin = margin
 
     def reset(self):
         """Reset the squared clipping stage"""
-- 
2.43.0


From a09f5a9c1ad807796004594f3bf1669f6e51a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 37/95] fix: np.complex was removed from numpy, lookup tables
 of the operating point selections use complex

---
 .../stages/operation_point_selection/eesm_ops.py              | 2 +-
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 3e84c95..6361fb2 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -181,7 +181,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_e_opt = sp_interpolate.interp1d(best_params[:, 0], best_params[:, 4], kind="cubic")
 
         self.t_grid, self.psi_grid = np.mgrid[
-            0 : self.t_max : np.complex(0, self.t_grid_count), 0 : self.psi_max : np.complex(self.psi_grid_count)
+            0 : self.t_max : complex(0, self.t_grid_count), 0 : self.psi_max : complex(0, self.psi_grid_count)
         ]
 
         self.i_d_inter = sp_interpolate.griddata(
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 6a828b1..14a9d1e 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -236,8 +236,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             # Define the grid for the torque and fluxes
             self.t_grid, self.psi_grid = np.mgrid[
-                np.amin(t) : np.amax(t) : np.complex(0, self.t_count),
-                self.psi_min : self.psi_max : np.complex(self.psi_count),
+                np.amin(t) : np.amax(t) : complex(0, self.t_count),
+                self.psi_min : self.psi_max : complex(0, self.psi_count),
             ]
 
             # Interpolate the functions
-- 
2.43.0


From 358f57f0682d23204990d93e8c339ccbce019f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 38/95] fix: flux equation polynomial of the synchronous
 operating point selections

---
 .../stages/operation_point_selection/eesm_ops.py              | 4 ++--
 .../stages/operation_point_selection/pmsm_ops.py              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 6361fb2..551af14 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -100,9 +100,9 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * (self.l_m * i_e) ** 2
             + 4 * self.l_d * (self.l_m * i_e) ** 2 * (self.l_d - self.l_q)
             + ((self.l_m * i_e) ** 2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * (self.l_m * i_e) ** 3
+            2 * self.l_d * (self.l_m * i_e) ** 3
             + 2 * ((self.l_m * i_e) ** 2 - psi**2) * self.l_m * i_e * (self.l_d - self.l_q),
-            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * torque / (3 * self.p)) ** 2,
+            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
         self._calculate_luts()
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 14a9d1e..d1a35ea 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -272,7 +272,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * self.psi_p**2
             + 4 * self.l_d * self.psi_p**2 * (self.l_d - self.l_q)
             + (self.psi_p**2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
+            2 * self.l_d * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
             (self.psi_p**2 - psi**2) * self.psi_p**2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
-- 
2.43.0


From 328e5a08146f3127d2d274bd04c370d8aa1a5144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 39/95] fix: torque requests beyond the MTPC table of the PMSM
 operating point selection are limited to its end

---
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index d1a35ea..bc1bbbf 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -309,7 +309,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
         return np.clip(
-            int(round((torque[0] + self.max_torque) / (2 * self.max_torque) * (self.t_count - 1))), 0, self.t_count
+            int(round((torque[0] + self.max_torque) / (2 * self.max_torque) * (self.t_count - 1))), 0, self.t_count - 1
         )
 
     def _select_operating_point(self, state, reference):
-- 
2.43.0


From db70671bd30e77d4595c8f0c0f96c735c65cf78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 40/95] fix: negative torque requests to the SeriesDc operating
 point selection are limited to zero instead of nan

---
 .../stages/operation_point_selection/series_dc_ops.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py
index bb5e06e..c41d345 100644
--- a/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py
@@ -33,7 +33,8 @@ class SeriesDcOperationPointSelection(OperationPointSelection):
         Returns:
             np.array: current reference values
         """
-        return np.sqrt(reference / self._cross_inductance)
+        # The motor torque is proportional to the squared current, negative torques are not reachable
+        return np.sqrt(np.maximum(reference, 0.0) / self._cross_inductance)
 
     def tune(self, env, env_id, current_safety_margin=0.2):
         """
-- 
2.43.0


From b7b832a8dc28dc28c541fd58223cdecb759028c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 41/95] fix: angle advance of the controllers' abc
 transformation uses the electrical speed and the environment's sampling time

---
 src/gem_controllers/stages/abc_transformation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index 59d51ec..b3fad8b 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -37,6 +37,7 @@ class AbcTransformation(Stage):
         self._advance_factor = 0.5
         self.omega_idx = None
         self.angle_idx = None
+        self._p = 1
         self._output_len = None
 
     def __call__(self, state, reference):
@@ -57,8 +58,8 @@ class AbcTransformation(Stage):
         return output
 
     def _angle_advance(self, state):
-        """Multiply the advance factor with the speed and the sampling time to calculate the advance angle"""
-        return state[self.angle_idx] + self._advance_factor * self.tau * state[self.omega_idx]
+        """Multiply the advance factor with the electrical speed and the sampling time to calculate the advance angle"""
+        return state[self.angle_idx] + self._advance_factor * self.tau * self._p * state[self.omega_idx]
 
     def tune(self, env, env_id, **_):
         """
@@ -73,6 +74,8 @@ class AbcTransformation(Stage):
         else:
             self.angle_idx = env.state_names.index("epsilon")
         self.omega_idx = env.state_names.index("omega")
+        self._p = reader.p_reader[gc.utils.get_motor_type(env_id)](env)
+        self.tau = env.physical_system.tau
         if hasattr(env.physical_system.converter, "dead_time"):
             self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
         else:
-- 
2.43.0


From 1d7d5e575989657946c38c32f32694105369f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 42/95] fix: P controllers can be tuned as speed controllers

---
 src/gem_controllers/stages/base_controllers/p_controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/p_controller.py b/src/gem_controllers/stages/base_controllers/p_controller.py
index 57d1f2b..b76b334 100644
--- a/src/gem_controllers/stages/base_controllers/p_controller.py
+++ b/src/gem_controllers/stages/base_controllers/p_controller.py
@@ -80,7 +80,7 @@ class PController(BaseController):
         """
         return self._control(state[self._state_indices], reference)
 
-    def tune(self, env, env_id, a=4):
+    def tune(self, env, env_id, a=4, t_n=None):
         """
         Tune the controller for the desired control task.
 
@@ -88,12 +88,13 @@ class PController(BaseController):
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be created for.
             env_id(str): The corresponding environment-id to specify the concrete environment.
             a(float): Design parameter of the symmetrical optimum.
+            t_n(float): Time constant of the underlying controller stage.
         """
 
         if self._control_task == EBaseControllerTask.CurrentControl:
             self._tune_current_controller(env, env_id, a)
         elif self._control_task == EBaseControllerTask.SpeedControl:
-            self._tune_speed_controller(env, env_id, a)
+            self._tune_speed_controller(env, env_id, a, t_n)
         else:
             raise Exception(f"No Tuner available for control task{self._control_task}.")
 
-- 
2.43.0


From ba437c488dc8fb588c391b80a9300f07ac267663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 43/95] fix: PID controllers can be tuned as speed controllers

---
 src/gem_controllers/stages/base_controllers/pid_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index f91f609..04dd99e 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -64,5 +64,5 @@ class PIDController(PIController):
             t_n(float): Time constant of the underlying torque controller.
         """
 
-        super()._tune_speed_controller(env, env_id, a)
+        super()._tune_speed_controller(env, env_id, a, t_n)
         self.d_gain = self.p_gain * self.tau
-- 
2.43.0


From 31d90dd000e197bccdedce4db01c73fa31715493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 44/95] fix: reset of the PID controller clears the last error

---
 .../stages/base_controllers/pid_controller.py                | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index 04dd99e..4cabde3 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -42,6 +42,11 @@ class PIDController(PIController):
         self._last_error = current_error
         return pi_action + d_action
 
+    def reset(self):
+        """Reset the integrated values and the last error"""
+        super().reset()
+        self._last_error = np.zeros_like(self._d_gain, dtype=float)
+
     def _tune_current_controller(self, env, env_id, a=4):
         """Set the gains of the P-, I- and D-component for the current control.
 
-- 
2.43.0


From 3343a225872cd6c26b54beba6b28d144068c6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 45/95] fix: time constants of the PermExDc current loop are an
 array as for all other motors

---
 src/gem_controllers/parameter_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 6668b0f..3b9f5dd 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -180,8 +180,10 @@ tau_current_loop_reader = {
         ]
     ),
     "PermExDc": lambda env: np.array(
-        env.physical_system.electrical_motor.motor_parameter["l_a"]
-        / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        [
+            env.physical_system.electrical_motor.motor_parameter["l_a"]
+            / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        ]
     ),
     "PMSM": lambda env: np.array(
         [
-- 
2.43.0


From 952232a3d142e2f01e7f5ed573346f6c0b741373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 46/95] fix: three point controllers can be tuned as current
 and speed controllers

---
 .../base_controllers/three_point_controller.py       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/three_point_controller.py b/src/gem_controllers/stages/base_controllers/three_point_controller.py
index e20f77d..93bc07f 100644
--- a/src/gem_controllers/stages/base_controllers/three_point_controller.py
+++ b/src/gem_controllers/stages/base_controllers/three_point_controller.py
@@ -93,7 +93,7 @@ class ThreePointController(BaseController):
         low_actions = referenced_states - self._hysteresis > reference
         return np.select([low_actions, high_actions], [self._low_action, self._high_action], default=self._idle_action)
 
-    def tune(self, env, env_id, **base_controller_kwargs):
+    def tune(self, env, env_id, *_, **base_controller_kwargs):
         """
         Tune a three point controller stage.
 
@@ -146,16 +146,20 @@ class ThreePointController(BaseController):
             _env_id(str): The corresponding environment-id to specify the concrete environment.
         """
 
-        torque_index = [env.state_names.index("reference")]
+        torque_index = [env.state_names.index("torque")]
         torque_limit = env.limits[torque_index]
-        self.referenced_state_indices = torque_index
+        speed_index = [env.state_names.index("omega")]
+        speed_limit = env.limits[speed_index]
+        self.referenced_state_indices = speed_index
         action_range = (
             env.observation_space[0].low[torque_index] * torque_limit,
             env.observation_space[0].high[torque_index] * torque_limit,
         )
         self.action_range = action_range
         # Todo: Calculate Hysteresis based on the dynamics of the underlying control plant
-        self.hysteresis = 0.01 * (action_range[1] - action_range[0])
+        self.hysteresis = 0.01 * (
+            env.observation_space[0].high[speed_index] - env.observation_space[0].low[speed_index]
+        ) * speed_limit
         self.high_action = action_range[1]
         self.low_action = action_range[0]
         self.idle_action = np.zeros_like(action_range[1])
-- 
2.43.0


From 447725fc322c075cf30933d2805255d8c0e210f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 47/95] fix: sub generators of the SwitchedReferenceGenerator
 are seeded independently of the previous episode's length

---
 .../reference_generators/switched_reference_generator.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/switched_reference_generator.py b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
index bb6d585..2824741 100644
--- a/src/gym_electric_motor/reference_generators/switched_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
@@ -64,6 +64,8 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
 
     def reset(self, initial_state=None, initial_reference=None):
         self.next_generator()
+        # The streams of the sub generators must not depend on how often they were switched in the previous episode
+        self._seed_sub_generators()
         self._reset_reference()
         return self._current_ref_generator.reset(initial_state, initial_reference)
 
@@ -89,6 +91,9 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
 
     def seed(self, seed=None):
         super().seed(seed)
+        self._seed_sub_generators()
+
+    def _seed_sub_generators(self):
         for sub_generator in self._sub_generators:
             if isinstance(sub_generator, RandomComponent):
                 seed = self._seed_sequence.spawn(1)[0]
-- 
2.43.0


From 6c60079e8d295c50f2c183992f946fa7d104834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 48/95] fix: environments do not share the default constraint
 instances of their class

---
 src/gym_electric_motor/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 2f77d34..71deb34 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -20,6 +20,7 @@ Each ElectricMotorEnvironment contains the five following modules:
 
 import datetime
 import os
+from copy import copy
 from dataclasses import dataclass
 
 import gymnasium
@@ -260,7 +261,12 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if not isinstance(constraint, str)]
+            # Constraint instances are copied as they may be shared with other environments (e.g. default arguments)
+            additional_constraints = [
+                copy(constraint) if isinstance(constraint, Constraint) else constraint
+                for constraint in constraints
+                if not isinstance(constraint, str)
+            ]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From cef273e16bcd669a196a82186319063d4e5faad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 49/95] fix: multi-step integrators of the ScipyOdeSolver
 restart when the parameters of the system equation change

---
 src/gym_electric_motor/physical_systems/solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 88a863a..5d879be 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -178,6 +178,9 @@ class ScipyOdeSolver(OdeSolver):
         super().set_f_params(*args)
         self._ode.set_f_params(*args)
         self._ode.set_jac_params(*args)
+        if self._integrator in ("vode", "zvode", "lsoda") and len(self._ode.y) > 0:
+            # Multi-step integrators have to forget their history, it belongs to the previous parameters
+            self._ode.set_initial_value(self._ode.y, self._ode.t)
 
     def integrate(self, t):
         # Docstring of superclass
-- 
2.43.0


From 7df7e5acbf8aebec0c3f6a60cbf790c6a9c3c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 50/95] fix: ScipyOdeSolver does not get stuck if the selection
 of the first step size fails close to zero states

---
 src/gym_electric_motor/physical_systems/solvers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 5d879be..0c783e7 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -184,7 +184,17 @@ class ScipyOdeSolver(OdeSolver):
 
     def integrate(self, t):
         # Docstring of superclass
-        return self._ode.integrate(t)
+        t_0, y_0 = self._ode.t, self._ode.y
+        y = self._ode.integrate(t)
+        if not self._ode.successful():
+            # The automatic selection of the first step size may fail for states close to zero
+            self._ode.set_integrator(self._integrator, **{"first_step": t - t_0, **self._solver_args})
+            self._ode.set_initial_value(y_0, t_0)
+            y = self._ode.integrate(t)
+            t = self._ode.t
+            self._ode.set_integrator(self._integrator, **self._solver_args)
+            self._ode.set_initial_value(y, t)
+        return y
 
 
 class ScipySolveIvpSolver(OdeSolver):
-- 
2.43.0


From 2961bed7c810d399c2e77fbe27c1f581059095be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 51/95] fix: multi-converter environments apply user-given
 converter parameters to their sub-converters

---
 .../envs/gym_dcm/extex_dc_motor_env/cont_cc_extex_dc_env.py   | 4 ++--
 .../envs/gym_dcm/extex_dc_motor_env/cont_sc_extex_dc_env.py   | 4 ++--
 .../envs/gym_dcm/extex_dc_motor_env/cont_tc_extex_dc_env.py   | 4 ++--
 .../envs/gym_dcm/extex_dc_motor_env/finite_cc_extex_dc_env.py | 4 ++--
 .../envs/gym_dcm/extex_dc_motor_env/finite_sc_extex_dc_env.py | 4 ++--
 .../envs/gym_dcm/extex_dc_motor_env/finite_tc_extex_dc_env.py | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py      | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/cont_sc_eesm_env.py      | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/cont_tc_eesm_env.py      | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/finite_cc_eesm_env.py    | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/finite_sc_eesm_env.py    | 4 ++--
 src/gym_electric_motor/envs/gym_eesm/finite_tc_eesm_env.py    | 4 ++--
 .../doubly_fed_induction_motor_envs/cont_cc_dfim_env.py       | 4 ++--
 .../doubly_fed_induction_motor_envs/cont_sc_dfim_env.py       | 4 ++--
 .../doubly_fed_induction_motor_envs/cont_tc_dfim_env.py       | 4 ++--
 .../doubly_fed_induction_motor_envs/finite_cc_dfim_env.py     | 4 ++--
 .../doubly_fed_induction_motor_envs/finite_sc_dfim_env.py     | 4 ++--
 .../doubly_fed_induction_motor_envs/finite_tc_dfim_env.py     | 4 ++--
 18 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_cc_extex_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_cc_extex_dc_env.py
index 80eadf8..6120678 100644
--- a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_cc_extex_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_cc_extex_dc_env.py
@@ -145,8 +145,8 @@ class ContCurrentControlDcExternallyExcitedMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.ContFourQuadrantConverter(),
-            ps.ContFourQuadrantConverter(),
+            ps.ContFourQuadrantConverter,
+            ps.ContFourQuadrantConverter,
         )
         physical_system = DcMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=60.0)),
diff --git a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_sc_extex_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_sc_extex_dc_env.py
index 05d08e9..997d990 100644
--- a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_sc_extex_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_sc_extex_dc_env.py
@@ -142,8 +142,8 @@ class ContSpeedControlDcExternallyExcitedMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.ContFourQuadrantConverter(),
-            ps.ContFourQuadrantConverter(),
+            ps.ContFourQuadrantConverter,
+            ps.ContFourQuadrantConverter,
         )
         physical_system = DcMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=60.0)),
diff --git a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_tc_extex_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_tc_extex_dc_env.py
index 0e1c03f..f74ac4b 100644
--- a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_tc_extex_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/cont_tc_extex_dc_env.py
@@ -145,8 +145,8 @@ class ContTorqueControlDcExternallyExcitedMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.ContFourQuadrantConverter(),
-            ps.ContFourQuadrantConverter(),
+            ps.ContFourQuadrantConverter,
+            ps.ContFourQuadrantConverter,
         )
         physical_system = DcMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=60.0)),
diff --git a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_cc_extex_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_cc_extex_dc_env.py
index 0fcf92f..8237a7f 100644
--- a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_cc_extex_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_cc_extex_dc_env.py
@@ -145,8 +145,8 @@ class FiniteCurrentControlDcExternallyExcitedMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.FiniteFourQuadrantConverter(),
-            ps.FiniteFourQuadrantConverter(),
+            ps.FiniteFourQuadrantConverter,
+            ps.FiniteFourQuadrantConverter,
         )
         physical_system = DcMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=60.0)),
diff --git a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_sc_extex_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_sc_extex_dc_env.py
index fc0f74d..1863abd 100644
--- a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_sc_extex_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_sc_extex_dc_env.py
@@ -142,8 +142,8 @@ class FiniteSpeedControlDcExternallyExcitedMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.FiniteFourQuadrantConverter(),
-            ps.FiniteFourQuadrantConverter(),
+            ps.FiniteFourQuadrantConverter,
+            ps.FiniteFourQuadrantConverter,
         )
 
         physical_system = DcMotorSystem(
diff --git a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_tc_extex_dc_env.py b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_tc_extex_dc_env.py
index 1221644..3c33dcf 100644
--- a/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_tc_extex_dc_env.py
+++ b/src/gym_electric_motor/envs/gym_dcm/extex_dc_motor_env/finite_tc_extex_dc_env.py
@@ -142,8 +142,8 @@ class FiniteTorqueControlDcExternallyExcitedMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.FiniteFourQuadrantConverter(),
-            ps.FiniteFourQuadrantConverter(),
+            ps.FiniteFourQuadrantConverter,
+            ps.FiniteFourQuadrantConverter,
         )
 
         physical_system = DcMotorSystem(
diff --git a/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py
index 06b842f..4cd9b1b 100644
--- a/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/cont_cc_eesm_env.py
@@ -153,8 +153,8 @@ class ContCurrentControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnviro
             WienerProcessReferenceGenerator(reference_state="i_e", limit_margin=(0, 1)),
         )
         default_subconverters = (
-            ps.ContB6BridgeConverter(),
-            ps.ContFourQuadrantConverter(),
+            ps.ContB6BridgeConverter,
+            ps.ContFourQuadrantConverter,
         )
         physical_system = ExternallyExcitedSynchronousMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=300.0)),
diff --git a/src/gym_electric_motor/envs/gym_eesm/cont_sc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/cont_sc_eesm_env.py
index cb01c0a..f5fa7a7 100644
--- a/src/gym_electric_motor/envs/gym_eesm/cont_sc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/cont_sc_eesm_env.py
@@ -146,8 +146,8 @@ class ContSpeedControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnvironm
             The available strings can be looked up in the documentation. (e.g., ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.ContB6BridgeConverter(),
-            ps.ContFourQuadrantConverter(),
+            ps.ContB6BridgeConverter,
+            ps.ContFourQuadrantConverter,
         )
         physical_system = ExternallyExcitedSynchronousMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
diff --git a/src/gym_electric_motor/envs/gym_eesm/cont_tc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/cont_tc_eesm_env.py
index e8f4be5..4c0c875 100644
--- a/src/gym_electric_motor/envs/gym_eesm/cont_tc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/cont_tc_eesm_env.py
@@ -150,8 +150,8 @@ class ContTorqueControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnviron
             The available strings can be looked up in the documentation. (e.g., ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.ContB6BridgeConverter(),
-            ps.ContFourQuadrantConverter(),
+            ps.ContB6BridgeConverter,
+            ps.ContFourQuadrantConverter,
         )
         physical_system = ExternallyExcitedSynchronousMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
diff --git a/src/gym_electric_motor/envs/gym_eesm/finite_cc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/finite_cc_eesm_env.py
index c165d8f..7b07a97 100644
--- a/src/gym_electric_motor/envs/gym_eesm/finite_cc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/finite_cc_eesm_env.py
@@ -153,8 +153,8 @@ class FiniteCurrentControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnvi
             WienerProcessReferenceGenerator(reference_state="i_e"),
         )
         default_subconverters = (
-            ps.FiniteB6BridgeConverter(),
-            ps.FiniteFourQuadrantConverter(),
+            ps.FiniteB6BridgeConverter,
+            ps.FiniteFourQuadrantConverter,
         )
         physical_system = ExternallyExcitedSynchronousMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
diff --git a/src/gym_electric_motor/envs/gym_eesm/finite_sc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/finite_sc_eesm_env.py
index a8296e2..6a8ac26 100644
--- a/src/gym_electric_motor/envs/gym_eesm/finite_sc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/finite_sc_eesm_env.py
@@ -145,8 +145,8 @@ class FiniteSpeedControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnviro
             The available strings can be looked up in the documentation. (e.g., ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.FiniteB6BridgeConverter(),
-            ps.FiniteFourQuadrantConverter(),
+            ps.FiniteB6BridgeConverter,
+            ps.FiniteFourQuadrantConverter,
         )
         physical_system = ExternallyExcitedSynchronousMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
diff --git a/src/gym_electric_motor/envs/gym_eesm/finite_tc_eesm_env.py b/src/gym_electric_motor/envs/gym_eesm/finite_tc_eesm_env.py
index 701dca9..8fde337 100644
--- a/src/gym_electric_motor/envs/gym_eesm/finite_tc_eesm_env.py
+++ b/src/gym_electric_motor/envs/gym_eesm/finite_tc_eesm_env.py
@@ -145,8 +145,8 @@ class FiniteTorqueControlExternallyExcitedSynchronousMotorEnv(ElectricMotorEnvir
             The available strings can be looked up in the documentation. (e.g., ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.FiniteB6BridgeConverter(),
-            ps.FiniteFourQuadrantConverter(),
+            ps.FiniteB6BridgeConverter,
+            ps.FiniteFourQuadrantConverter,
         )
         physical_system = ExternallyExcitedSynchronousMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py
index 0e7785c..b6ccc7d 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_cc_dfim_env.py
@@ -159,8 +159,8 @@ class ContCurrentControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             WienerProcessReferenceGenerator(reference_state="i_sq"),
         )
         default_sub_converters = (
-            ps.ContB6BridgeConverter(),
-            ps.ContB6BridgeConverter(),
+            ps.ContB6BridgeConverter,
+            ps.ContB6BridgeConverter,
         )
 
         physical_system = DoublyFedInductionMotorSystem(
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py
index 7ec1a13..b5af01f 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_sc_dfim_env.py
@@ -152,8 +152,8 @@ class ContSpeedControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         default_sub_converters = (
-            ps.ContB6BridgeConverter(),
-            ps.ContB6BridgeConverter(),
+            ps.ContB6BridgeConverter,
+            ps.ContB6BridgeConverter,
         )
         physical_system = DoublyFedInductionMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py
index 04586ad..1921c34 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/cont_tc_dfim_env.py
@@ -155,8 +155,8 @@ class ContTorqueControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         default_sub_converters = (
-            ps.ContB6BridgeConverter(),
-            ps.ContB6BridgeConverter(),
+            ps.ContB6BridgeConverter,
+            ps.ContB6BridgeConverter,
         )
         physical_system = DoublyFedInductionMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_cc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_cc_dfim_env.py
index c5834ba..9745210 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_cc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_cc_dfim_env.py
@@ -159,8 +159,8 @@ class FiniteCurrentControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             WienerProcessReferenceGenerator(reference_state="i_sq"),
         )
         default_sub_converters = (
-            ps.FiniteB6BridgeConverter(),
-            ps.FiniteB6BridgeConverter(),
+            ps.FiniteB6BridgeConverter,
+            ps.FiniteB6BridgeConverter,
         )
 
         physical_system = DoublyFedInductionMotorSystem(
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_sc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_sc_dfim_env.py
index b4d4686..174bf9c 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_sc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_sc_dfim_env.py
@@ -152,8 +152,8 @@ class FiniteSpeedControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         default_subconverters = (
-            ps.FiniteB6BridgeConverter(),
-            ps.FiniteB6BridgeConverter(),
+            ps.FiniteB6BridgeConverter,
+            ps.FiniteB6BridgeConverter,
         )
         physical_system = DoublyFedInductionMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
diff --git a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_tc_dfim_env.py b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_tc_dfim_env.py
index c4e1241..7858bb2 100644
--- a/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_tc_dfim_env.py
+++ b/src/gym_electric_motor/envs/gym_im/doubly_fed_induction_motor_envs/finite_tc_dfim_env.py
@@ -152,8 +152,8 @@ class FiniteTorqueControlDoublyFedInductionMotorEnv(ElectricMotorEnvironment):
             The available strings can be looked up in the documentation. (e.g. ``converter='Finite-2QC'``)
         """
         default_sub_converters = (
-            ps.FiniteB6BridgeConverter(),
-            ps.FiniteB6BridgeConverter(),
+            ps.FiniteB6BridgeConverter,
+            ps.FiniteB6BridgeConverter,
         )
         physical_system = DoublyFedInductionMotorSystem(
             supply=initialize(ps.VoltageSupply, supply, ps.IdealVoltageSupply, dict(u_nominal=420.0)),
-- 
2.43.0


From 3219112ed718e502db1b2d92259ba3cfde0b0fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 52/95] fix: constant initial fluxes of induction motors are
 not rejected at random

---
 .../electric_motors/doubly_fed_induction_motor.py  |  3 +--
 .../electric_motors/induction_motor.py             | 14 ++++++++++++++
 .../squirrel_cage_induction_motor.py               |  3 +--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index ef3f17f..a566e28 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -153,8 +153,7 @@ class DoublyFedInductionMotor(InductionMotor):
 
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
-        # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = self.random_generator.uniform(-np.pi, np.pi)
+        eps_mag = self._initial_field_angle()
         flux_alphabeta_limits = self._flux_limit(
             omega=omega,
             eps_mag=eps_mag,
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 5461d30..47e80ce 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -250,6 +250,20 @@ class InductionMotor(ThreePhaseMotor):
             )
         )
 
+    def _initial_field_angle(self):
+        """Magnetic field angle for which the flux limits of the initial state are determined
+
+        Returns:
+            float: The angle of the flux, if constant initial fluxes are requested. Otherwise, a random angle.
+        """
+        # draw a sample magnetic field angle from [-pi,pi]
+        eps_mag = self.random_generator.uniform(-np.pi, np.pi)
+        if self._initializer["random_init"] is None:
+            psi_alpha, psi_beta = (self._initial_states[flux] for flux in self.FLUXES)
+            if psi_alpha != 0 or psi_beta != 0:
+                eps_mag = np.arctan2(psi_beta, psi_alpha)
+        return eps_mag
+
     def _flux_limit(self, omega=0, eps_mag=0, u_q_max=0.0, u_rq_max=0.0):
         """Calculate Flux limits for given current and magnetic-field angle
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index b284c00..313fec9 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -145,8 +145,7 @@ class SquirrelCageInductionMotor(InductionMotor):
 
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
-        # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = self.random_generator.uniform(-np.pi, np.pi)
+        eps_mag = self._initial_field_angle()
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
-- 
2.43.0


From 4a53ba0b5828560c764244869d4848d6b31ea645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 53/95] fix: derive the torque limit of dc motors from the
 completed current limits

---
 .../physical_systems/electric_motors/dc_motor.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
index 874f0e4..31c0e1d 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_motor.py
@@ -155,6 +155,6 @@ class DcMotor(ElectricMotor):
         if limits_d is None:
             limits_d = dict()
 
-        # torque is replaced the same way for all DC motors
-        limits_d.update(dict(torque=self.torque([self._limits[state] for state in self.CURRENTS])))
         super()._update_limits(limits_d)
+        # torque is replaced the same way for all DC motors, based on the completed current limits
+        super()._update_limits(dict(torque=self.torque([self._limits[state] for state in self.CURRENTS])))
-- 
2.43.0


From 3604974c7fed28ca5a5211c5ad418021564e2c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 54/95] fix: periodic references use the lower margin for their
 offset range

---
 .../reference_generators/sawtooth_reference_generator.py        | 2 +-
 .../reference_generators/sinusoidal_reference_generator.py      | 2 +-
 .../reference_generators/triangle_reference_generator.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
index 0a6856a..a7740d1 100644
--- a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
@@ -44,7 +44,7 @@ class SawtoothReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
index 10afba4..ce309ca 100644
--- a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
@@ -47,7 +47,7 @@ class SinusoidalReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
index 32fb3b3..98181d4 100644
--- a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
@@ -50,7 +50,7 @@ class TriangularReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
-- 
2.43.0


From 6c333888188fff7c26e5145e3798e8b686751c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:50 +0000
Subject: [PATCH 55/95] fix: DFIM dq-action processor transforms stator and
 rotor actions out of one common flux-oriented frame

---
 .../dq_to_abc_action_processor.py                  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
index f6ef88a..fe3144d 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
@@ -121,7 +121,7 @@ class _DFIMDqToAbcActionProcessor(DqToAbcActionProcessor):
 
     def __init__(self, physical_system=None):
         super().__init__('epsilon', physical_system=physical_system)
-        self._flux_angle_name = 'psi_abs'
+        self._flux_angle_name = 'psi_angle'
         self._flux_angle_index = None
 
     def simulate(self, action):
@@ -132,11 +132,15 @@ class _DFIMDqToAbcActionProcessor(DqToAbcActionProcessor):
         Returns:
             The next state of the physical system.
         """
-        advanced_angle = self._advance_angle(self._state)
+        # The dq-frame is oriented at the flux: the stator sees it at the flux angle, the (rotating) rotor at the
+        # difference of the flux angle and the rotor position. Both angles advance alike, the difference stays.
+        rotor_position = self._state[self._angle_index]
+        flux_angle = self._state[self._flux_angle_index]
+        angle_advance = self._advance_angle(self._state) - rotor_position
         dq_action_stator = action[:2]
         dq_action_rotor = action[2:]
-        abc_action_stator = self._transformation(dq_action_stator, advanced_angle)
-        abc_action_rotor = self._transformation(dq_action_rotor, self._state[self._flux_angle_index] - advanced_angle)
+        abc_action_stator = self._transformation(dq_action_stator, flux_angle + angle_advance)
+        abc_action_rotor = self._transformation(dq_action_rotor, flux_angle - rotor_position)
         abc_action = np.concatenate((abc_action_stator, abc_action_rotor))
         normalized_state = self._physical_system.simulate(abc_action)
         self._state = normalized_state * self._physical_system.limits
@@ -144,7 +148,7 @@ class _DFIMDqToAbcActionProcessor(DqToAbcActionProcessor):
 
     def set_physical_system(self, physical_system):
         super().set_physical_system(physical_system)
-        self._flux_angle_index = physical_system.state_names.index('psi_angle')
+        self._flux_angle_index = physical_system.state_names.index(self._flux_angle_name)
         return self
     
 @DqToAbcActionProcessor.register_transformation(['EESM'])
-- 
2.43.0


From c88b2fc7ca28c6870ac4a66d5ad4cd949a632a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 56/95] fix: lists of visualizations are used and component
 arguments of an unsupported type rejected instead of silently dropped

---
 src/gym_electric_motor/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/utils.py b/src/gym_electric_motor/utils.py
index c8457f8..5d5f6fc 100644
--- a/src/gym_electric_motor/utils.py
+++ b/src/gym_electric_motor/utils.py
@@ -14,6 +14,9 @@ def initialize(base_class, arg, default_class, default_args):
     elif type(arg) is dict:
         default_args.update(arg)
         return default_class(**default_args)
+    elif isinstance(arg, (list, tuple)) and all(isinstance(component, base_class) for component in arg):
+        return arg  # e.g. several visualizations
+    raise TypeError(f"An instance of {base_class} or a dict is required. {arg} of type {type(arg)} has been passed.")
 
 
 def state_dict_to_state_array(state_dict, state_array, state_names):
-- 
2.43.0


From af9c03c23c72b76d24a32e900962da88b94acc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 57/95] fix: unknown supply parameters and load initializer
 entries are rejected like unknown motor parameters

---
 .../physical_systems/mechanical_loads/mechanical_load.py | 7 +++++--
 .../physical_systems/voltage_supplies.py                 | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index d00ed80..4c69793 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -4,6 +4,7 @@ import numpy as np
 from scipy.stats import truncnorm
 
 from ...random_component import RandomComponent
+from ...utils import update_parameter_dict
 
 
 class MechanicalLoad(RandomComponent):
@@ -93,8 +94,10 @@ class MechanicalLoad(RandomComponent):
         self._limits = {}
         self._nominal_values = {}
         load_initializer = load_initializer or {}
-        self._initializer = self._default_initializer.copy()
-        self._initializer.update(load_initializer)
+        if self._default_initializer:
+            self._initializer = update_parameter_dict(self._default_initializer, load_initializer)
+        else:
+            self._initializer = dict(load_initializer)
         if "states" in self._initializer:
             # The initial states are altered by the load. Hence, neither the defaults nor the user's dict are used.
             self._initializer["states"] = dict(self._initializer["states"])
diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index e0da7b0..70c44ab 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -94,6 +94,7 @@ class RCVoltageSupply(VoltageSupply):
         # Supply range is between 0 - capacitor completely unloaded - and u_nominal - capacitor is completely loaded
         assert "R" in supply_parameter.keys(), "Pass key 'R' for Resistance in your dict"
         assert "C" in supply_parameter.keys(), "Pass key 'C' for Capacitance in your dict"
+        assert set(supply_parameter.keys()) <= {"R", "C"}, f"Unknown keys in {supply_parameter}. Pass only 'R' and 'C'."
         self.supply_range = (0, u_nominal)
         self._r = supply_parameter["R"]
         self._c = supply_parameter["C"]
@@ -142,6 +143,10 @@ class AC1PhaseSupply(VoltageSupply, RandomComponent):
         if supply_parameter is not None:
             assert isinstance(supply_parameter, dict), "supply_parameter should be a dict"
             assert "frequency" in supply_parameter.keys(), "Pass key 'frequency' for frequency f in Hz in your dict"
+            assert set(supply_parameter.keys()) <= {
+                "frequency",
+                "phase",
+            }, f"Unknown keys in {supply_parameter}. Pass only 'frequency' and 'phase'."
             if "phase" in supply_parameter.keys():
                 assert (
                     0 <= supply_parameter["phase"] < 2 * np.pi
@@ -187,6 +192,10 @@ class AC3PhaseSupply(VoltageSupply, RandomComponent):
         if supply_parameter is not None:
             assert isinstance(supply_parameter, dict), "supply_parameter should be a dict"
             assert "frequency" in supply_parameter.keys(), "Pass key 'frequency' for frequency f in Hz in your dict"
+            assert set(supply_parameter.keys()) <= {
+                "frequency",
+                "phase",
+            }, f"Unknown keys in {supply_parameter}. Pass only 'frequency' and 'phase'."
             if "phase" in supply_parameter.keys():
                 assert (
                     0 <= supply_parameter["phase"] < 2 * np.pi
-- 
2.43.0


From 7bc03d35848b99e29ed79156d258f6ccb105bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:39 +0000
Subject: [PATCH 58/95] fix: EESM feedforward cancels the couplings of the
 drive (excitation factor 3/2, leakage factor sigma)

---
 src/gem_controllers/stages/emf_feedforward_eesm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/emf_feedforward_eesm.py b/src/gem_controllers/stages/emf_feedforward_eesm.py
index 83f1013..77c6e6b 100644
--- a/src/gem_controllers/stages/emf_feedforward_eesm.py
+++ b/src/gem_controllers/stages/emf_feedforward_eesm.py
@@ -53,7 +53,14 @@ class EMFFeedforwardEESM(EMFFeedforward):
 
         self._l_m = l_m
         self._i_e_idx = env.state_names.index("i_e")
-        self._decoupling_params = np.array([-l_m * r_e / l_e, 0, -l_m * r_s / l_d])
-        self._action_decoupling = np.array([l_m / l_e, 0, l_m / l_d])
+        # The stator currents act on the excitation circuit with the factor 3/2 (amplitude-invariant dq-transformation)
+        l_m_e = 3 / 2 * l_m
+        # The d-axis and the excitation circuit are magnetically coupled. Only the share sigma of each intermediate
+        # voltage is effective after the action decoupling, so the coupling terms have to be scaled by 1 / sigma.
+        sigma = 1 - l_m * l_m_e / (l_d * l_e)
+        l_q = env.physical_system.electrical_motor.motor_parameter["l_q"]
+        self.inductance = np.array([-l_q / sigma, l_d, l_m_e * l_q / l_d / sigma])
+        self._decoupling_params = np.array([-l_m * r_e / l_e / sigma, 0, -l_m_e * r_s / l_d / sigma])
+        self._action_decoupling = np.array([l_m / l_e, 0, l_m_e / l_d])
         self._currents_idx = [env.state_names.index("i_e"), 0, env.state_names.index("i_sd")]
         self._action_idx = [2, 1, 0]
-- 
2.43.0


From 8c6f4e63d8916b9755ebb1ddab16ec9b108b3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 59/95] fix: SCIM feedforward uses the electrical rotor speed

---
 src/gem_controllers/stages/emf_feedforward_ind.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/emf_feedforward_ind.py b/src/gem_controllers/stages/emf_feedforward_ind.py
index 6b2c64b..78c63b8 100644
--- a/src/gem_controllers/stages/emf_feedforward_ind.py
+++ b/src/gem_controllers/stages/emf_feedforward_ind.py
@@ -30,7 +30,8 @@ class EMFFeedforwardInd(EMFFeedforward):
         """
 
         # Calculate the stator angular velocity
-        omega_s = state[self.omega_idx] + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
+        omega_el = self.omega_el(state)
+        omega_s = omega_el + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
             np.abs(state[self.psi_abs_idx]), 1e-4
         ) * np.sign(state[self.psi_abs_idx])
 
@@ -38,7 +39,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         action = (
             reference
             + omega_s * self.inductance * state[self.current_indices]
-            + np.array([-self.l_m * self.r_r / (self.l_r**2), state[self.omega_idx] * self.l_m / self.l_r])
+            + np.array([-self.l_m * self.r_r / (self.l_r**2), omega_el * self.l_m / self.l_r])
             * state[self.psi_abs_idx]
         )
 
-- 
2.43.0


From 83dbb5882b3bde9d3a31855aadd883cd45190df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 60/95] fix: PermExDc operation point selection limits the
 torque by the current reachable at the supply voltage

---
 .../stages/operation_point_selection/permex_dc_ops.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index 58b6c9e..f1e7244 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -70,8 +70,9 @@ class PermExDcOperationPointSelection(OperationPointSelection):
             return max(reference / self._magnetic_flux, -self._max_current_per_speed(state))
 
     def _max_current_per_speed(self, state):
-        """Calculate the maximum current for a given speed."""
-        return self._voltage_limit / (self._resistance + self._magnetic_flux * abs(state[self._omega_index]))
+        """Calculate the maximum stationary current in direction of the rotation for a given speed."""
+        induced_voltage = self._magnetic_flux * abs(state[self._omega_index])
+        return np.maximum(self._voltage_limit - induced_voltage, 0.0) / self._resistance
 
     def tune(self, env, env_id, current_safety_margin=0.2):
         """
-- 
2.43.0


From 68b3d4ff501b4d4d750a0ef91cbce7abf4789af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:20 +0000
Subject: [PATCH 61/95] fix: SCIM torque controllers do not share one default
 flux controller

---
 .../stages/operation_point_selection/scim_ops.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 16d2707..435c787 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -19,13 +19,13 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self,
         max_modulation_level: float = 2 / np.sqrt(3),
         modulation_damping: float = 1.2,
-        psi_controller=PIController(control_task="FC"),
+        psi_controller=None,
     ):
         """
         Args:
             max_modulation_level(float): Maximum value for the modulation controller.
             modulation_damping(float): Damping of the gain of the modulation controller.
-            psi_controller(gc.stages.BaseController): Flux controller for the i_d current.
+            psi_controller(gc.stages.BaseController): Flux controller for the i_d current. Default: A new PI controller.
         """
 
         super().__init__(max_modulation_level, modulation_damping)
@@ -40,7 +40,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_sd_count = None
         self.i_sq_count = None
 
-        self.psi_controller = psi_controller
+        self.psi_controller = psi_controller if psi_controller is not None else PIController(control_task="FC")
 
     def _psi_opt(self):
         """Calculate the optimal flux for a given torque"""
-- 
2.43.0


From 26a90dfe682045ac2a03128870be78681f5dcac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 62/95] fix: scaled dashboard plots work with a single data
 line and scale unreferenced states

---
 .../visualization/motor_dashboard_plots/base_plots.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
index e203618..cae8909 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
@@ -188,10 +188,11 @@ class TimePlot(MotorDashboardPlot):
     def _scale_y_axis(self):
         if self._scale_plots_to_data:
             # nanmin does not reraise RuntimeWarning so we to check for NaNs ourselves
-            if np.isnan(self._y_data[0]).all() or np.isnan(self._y_data[1]).all():
+            plotted_data = [data for data in self._y_data if not np.isnan(data).all()]
+            if len(plotted_data) == 0:
                 return
-            y_min = min(np.nanmin(self._y_data[0]), np.nanmin(self._y_data[1]))
-            y_max = max(np.nanmax(self._y_data[0]), np.nanmax(self._y_data[1]))
+            y_min = min(np.nanmin(data) for data in plotted_data)
+            y_max = max(np.nanmax(data) for data in plotted_data)
 
             self._axis.set_ylim(
                 y_min - np.sign(y_min) * 0.1 * y_min,
-- 
2.43.0


From c0cb449080a39cf77a256ccf49b090fbd150d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 63/95] fix: reward plot shows the data recorded after the
 figures were reset

---
 .../visualization/motor_dashboard_plots/reward_plot.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
index 9bf3601..f274f6a 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
@@ -33,6 +33,7 @@ class RewardPlot(TimePlot):
     def reset_data(self):
         super().reset_data()
         self._reward_data = np.full(shape=self._x_data.shape, fill_value=np.nan)
+        self._y_data = [self._reward_data]
 
     def on_step_end(self, k, state, reference, reward, terminated):
         idx = self.data_idx
-- 
2.43.0


From e6251a5758cf3bc26ec913892a0a784a66ff5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 64/95] fix: mean episode reward plot keeps episodes ended
 before its first rendering and accepts empty episodes

---
 .../mean_episode_reward_plot.py                  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index ac6c471..c53de90 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -15,12 +15,11 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._episode_length = 0
         self._label = "Mean Reward Per Step"
         self._reward_range = [np.inf, -np.inf]
+        self._y_data.append(self._reward_data)
 
     def initialize(self, axis):
         super().initialize(axis)
-        self._reward_data = []
-        self._y_data.append(self._reward_data)
-        self._lines.append(self._axis.plot([], self._reward_data, color=self._colors[0])[0])
+        self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
@@ -31,16 +30,21 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         super().reset_data()
         self._reward_data = []
         self._reward_range = [np.inf, -np.inf]
+        self._y_data.append(self._reward_data)
+
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        self._reward_sum = 0
+        self._episode_length = 0
 
     def _set_y_data(self):
-        mean_reward = self._reward_sum / self._episode_length
+        # The mean reward of an episode without any step is not defined
+        mean_reward = self._reward_sum / self._episode_length if self._episode_length > 0 else np.nan
         self._reward_data.append(mean_reward)
         if self._reward_range[0] > mean_reward:
             self._reward_range[0] = mean_reward
         if self._reward_range[1] < mean_reward:
             self._reward_range[1] = mean_reward
-        self._reward_sum = 0
-        self._episode_length = 0
         self._reset = True
 
     def _scale_y_axis(self):
-- 
2.43.0


From 64831a33dd758748056095562c337e8f132fec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:16 +0000
Subject: [PATCH 65/95] fix: cumulative constraint violation plot can be
 rendered after the figures were reset

---
 .../visualization/motor_dashboard_plots/base_plots.py         | 4 +++-
 .../cumulative_constraint_violation_plot.py                   | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
index cae8909..e7a9571 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
@@ -240,10 +240,12 @@ class StepPlot(MotorDashboardPlot):
         self._k = 0
 
     def _scale_x_axis(self):
-        if self._axis.get_xlim() != (-1, self._x_data[-1]):
+        if len(self._x_data) > 0 and self._axis.get_xlim() != (-1, self._x_data[-1]):
             self._axis.set_xlim(-1, self._x_data[-1])
 
     def _scale_y_axis(self):
+        if len(self._x_data) == 0:
+            return
         min_, max_ = min(self._y_data[0]), max(self._y_data[0])
         if self._axis.get_ylim() != (min_, max_):
             self._axis.set_ylim(min_, max_)
diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
index 4a4a930..124c4a0 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
@@ -18,7 +18,9 @@ class CumulativeConstraintViolationPlot(StepPlot):
 
     def reset_data(self):
         super().reset_data()
+        self._no_of_violations = 0
         self._violations = [0]
+        self._x_data.append(0)
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
-- 
2.43.0


From 8cd4de7777a3372755a7702108aa0a9c9c8bf474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 66/95] fix: episode length plot forgets the running episode
 when the figures are reset

---
 .../visualization/motor_dashboard_plots/episode_length_plot.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
index a2ed136..1d5a1a0 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
@@ -27,6 +27,7 @@ class EpisodeLengthPlot(EpisodePlot):
     def reset_data(self):
         super().reset_data()
         self._episode_lengths = []
+        self._episode_length = 0
         self._ymax = 1
         self._update_lim = True
         self._y_data.append(self._episode_lengths)
-- 
2.43.0


From 53c033ae6ee28e8db30c387cc638b9068a6f198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 67/95] fix: FigureOnce dashboards show all recorded data when
 the environment is closed

---
 src/gym_electric_motor/visualization/motor_dashboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard.py b/src/gym_electric_motor/visualization/motor_dashboard.py
index bb673a3..8afa29e 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard.py
@@ -346,7 +346,7 @@ class MotorDashboard(MotorDashboardLegacy):
 
     def on_close(self):
         if self.render_mode == RenderMode.FigureOnce:
-            self.render()
+            self.force_render()
         super().on_close()
 
     def on_step_end(self, k, state, reference, reward, terminated):
-- 
2.43.0


From cc63e45a3a7f98fa35d7e4324258ac0ebecf221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 68/95] fix: console printer reports the data of the ended
 episodes independent of the time of rendering

---
 .../visualization/console_printer.py          | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/gym_electric_motor/visualization/console_printer.py b/src/gym_electric_motor/visualization/console_printer.py
index df1d756..e1d8898 100644
--- a/src/gym_electric_motor/visualization/console_printer.py
+++ b/src/gym_electric_motor/visualization/console_printer.py
@@ -37,11 +37,20 @@ class ConsolePrinter(ElectricMotorVisualization):
         self._done = False
         self._episode = 0
         np.set_printoptions(formatter={"float": "{:9.3f}".format})
-        self._reset = False
+        # Flag, if an episode has already been started
+        self._running = False
+        # (constraint violation, number of steps, cumulative reward) of the ended episodes that are not printed yet
+        self._ended_episodes = []
 
     def on_reset_begin(self):
         """Gets called on environment reset. Handles internal value reset and External reset printing"""
-        self._reset = True
+        if self._running and self._print_freq > 0:
+            self._ended_episodes.append((self._done, self._k, self._cum_reward))
+        self._running = True
+        self._done = False
+        self._k = 0
+        self._reward = np.nan
+        self._cum_reward = 0
 
     def on_reset_end(self, state, reference):
         self._reference = reference
@@ -67,16 +76,15 @@ class ConsolePrinter(ElectricMotorVisualization):
 
     def render(self):
         if self._print_freq > 0:
-            if self._reset:
+            for violated, steps, cum_reward in self._ended_episodes:
                 print(
                     f"\nEpisode {self._episode} ",
-                    "Constraint Violation! " if self._done else "External Reset. ",
-                    f"Number of steps: {self._k: 8d} ",
-                    f"Cumulative Reward: {self._cum_reward:7.3f}\n",
+                    "Constraint Violation! " if violated else "External Reset. ",
+                    f"Number of steps: {steps: 8d} ",
+                    f"Cumulative Reward: {cum_reward:7.3f}\n",
                 )
-                self._cum_reward = 0
-                self._reset = False
                 self._episode += 1
+            self._ended_episodes = []
 
             if self._print_freq == 2 and (self._k % self._update_freq) == 0:
                 print(
-- 
2.43.0


From f0c2b37d0251e368778e232236be92a909daa9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 69/95] fix: mean episode reward plot scales with at least two
 non-empty episodes

---
 .../motor_dashboard_plots/mean_episode_reward_plot.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index c53de90..31db264 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -48,6 +48,6 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._reset = True
 
     def _scale_y_axis(self):
-        if len(self._reward_data) > 1 and self._axis.get_ylim() != tuple(self._reward_range):
+        if np.count_nonzero(np.isfinite(self._reward_data)) > 1 and self._axis.get_ylim() != tuple(self._reward_range):
             spacing = 0.1 * (self._reward_range[1] - self._reward_range[0])
             self._axis.set_ylim(self._reward_range[0] - spacing, self._reward_range[1] + spacing)
-- 
2.43.0


From 915fe2c71cf66678b7e8d2f8a1643289d348a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 70/95] fix: episode length plot starts every episode without
 the steps before its reset

---
 .../motor_dashboard_plots/episode_length_plot.py              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
index 1d5a1a0..49af387 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
@@ -21,6 +21,10 @@ class EpisodeLengthPlot(EpisodePlot):
         super().initialize(axis)
         self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        self._episode_length = 0
+
     def on_step_end(self, k, state, reference, reward, terminated):
         self._episode_length = k
 
-- 
2.43.0


From fc76c92c733dc1ef96c1d11d5d37f5e0fc2f41df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 71/95] fix: every controller has its own plotting flag

---
 src/gem_controllers/gem_controller.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 8083c5e..08cd597 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -15,6 +15,9 @@ class GemController:
     controller to control a gym-electric-motor environment.
     """
 
+    # Flag, if the controller passes its references to the plots of the environment.
+    should_plot = False
+
     @property
     def signals(self):
         """Input signals of the controller"""
@@ -61,8 +64,6 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
-        cls.should_plot = should_plot
-
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
@@ -89,6 +90,7 @@ class GemController:
             )
         # Wrap the controller with the adapter to map the inputs and outputs to the environment
         controller = gc.GymElectricMotorAdapter(env, env_id, controller)
+        controller.should_plot = should_plot
 
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
-- 
2.43.0


From 67efba5caa590861e9b89617e160742975a77258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 72/95] fix: controllers work with every visualization and add
 reference lines only when they plot

---
 src/gem_controllers/gem_adapter.py       | 5 +++--
 src/gem_controllers/reference_plotter.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/gem_adapter.py b/src/gem_controllers/gem_adapter.py
index 4ed6628..bea9598 100644
--- a/src/gem_controllers/gem_adapter.py
+++ b/src/gem_controllers/gem_adapter.py
@@ -94,7 +94,7 @@ class GymElectricMotorAdapter(GemController):
             self._reference_plotter.update_plots(self._controller.references)
         return action
 
-    def tune(self, env, env_id, tune_controller=True, **kwargs):
+    def tune(self, env, env_id, tune_controller=True, plot_references=True, **kwargs):
         """
         Function to set the parameters of the controller stages.
 
@@ -102,6 +102,7 @@ class GymElectricMotorAdapter(GemController):
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be tuned for.
             env_id(str): ID of the ElectricMotorEnvironment.
             tune_controller(bool): Flag, if the controller should be tuned.
+            plot_references(bool): Flag, if a plotting controller adds its references to the plots of the environment.
         """
 
         self._input_stage.tune(env, env_id)
@@ -112,7 +113,7 @@ class GymElectricMotorAdapter(GemController):
         self._reference_plotter.tune(
             env,
             self._controller.referenced_states,
-            plot_references=True,
+            plot_references=plot_references and self.should_plot,
             maximum_reference=self._controller.maximum_reference,
         )
 
diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 76c892c..053e481 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -24,7 +24,7 @@ class ReferencePlotter:
         """
         if plot_references:
             for visualization in env.visualizations:
-                for time_plot in visualization._time_plots:
+                for time_plot in getattr(visualization, "_time_plots", ()):
                     if isinstance(time_plot, StatePlot):
                         if time_plot.state in referenced_states:
                             self._referenced_plots.append(time_plot)
-- 
2.43.0


From 3bb9af22aab6d1720dee6e7f67efcfe24e03f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:41 +0000
Subject: [PATCH 73/95] fix: PMSM operating points yield exactly the requested
 torque on the MTPC characteristic

---
 .../stages/operation_point_selection/pmsm_ops.py            | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index bc1bbbf..f4905bc 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -78,7 +78,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 i_q_ret = i_q
                 i_d_ret = i_d
             else:
-                i_q_ret = np.sign((self.l_q - self.l_d) * t) * np.abs(i_q[min_idx])
+                # reluctance torque only: both signs of i_q are candidates for the same torque
+                i_q_ret = i_q[min_idx] if self.psi_p != 0 else np.sign((self.l_q - self.l_d) * t) * np.abs(i_q[min_idx])
                 i_d_ret = i_d[min_idx]
 
             # The flow is finally calculated from the currents
@@ -287,7 +288,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         i_d, i_q = self.solve_analytical(torque, psi)
         if i_d > self.mtpc[psi_idx, 1]:
             i_d = self.mtpc[psi_idx, 1]
-            i_q = self.mtpc[psi_idx, 2]
+            # the lut is discrete: take the i_q current that yields the requested torque
+            i_q = 2 * torque / (3 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d))
         return i_d, i_q
 
     def _get_t_idx(self, torque):
-- 
2.43.0


From c60ac64f1642ac78f540bd80abedc7094ea26810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:51 +0000
Subject: [PATCH 74/95] fix: index of the MTPF lookup table for tables shorter
 than psi_count

---
 .../stages/operation_point_selection/pmsm_ops.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index f4905bc..6fb939c 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -304,9 +304,9 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
     def _get_psi_idx_mtpf(self, psi):
         """Get the index of the flux of the MTPF lookup table."""
-        return np.clip(
-            int((self.psi_count - 1) - round(psi / self.psi_max_mtpf * (self.psi_count - 1))), 0, self.psi_count
-        )
+        # The first half of the lookup table contains the negative torques with decreasing fluxes
+        max_idx = len(self.mtpf) // 2 - 1
+        return np.clip(int(max_idx - round(psi / self.psi_max_mtpf * max_idx)), 0, max_idx)
 
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
-- 
2.43.0


From 9f5b099c63808e76d176489c3d9a2dfad6cc1617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:01 +0000
Subject: [PATCH 75/95] fix: SynRM operating points use the maximum torque per
 flux and the right axes

---
 .../operation_point_selection/pmsm_ops.py     | 51 +++++++++----------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 6fb939c..19d8c76 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -107,29 +107,22 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 psi_i_d_q.append([psi_, t, i_d_, i_q])
 
             else:
-                if self.psi_p == 0:
-                    i_q_best = psi_ / np.sqrt(self.l_d**2 + self.l_q**2)
-                    i_d_best = -i_q_best
-                    t = 1.5 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d_best) * i_q_best
-                else:
-                    i_d_idx = np.where(psi_**2 - np.power(self.psi_p + self.l_d * i_d, 2) >= 0)
-                    i_d_ = i_d[i_d_idx]
-
-                    # calculate all possible i_q currents for i_d currents
-                    i_q = np.sqrt(psi_**2 - np.power(self.psi_p + self.l_d * i_d_, 2)) / self.l_q
-                    i_idx = np.where(
-                        np.sqrt(np.power(i_q / self.i_sq_limit, 2) + np.power(i_d_ / self.i_sd_limit, 2)) <= 1
-                    )
-                    i_d_ = i_d_[i_idx]
-                    i_q = i_q[i_idx]
-                    torque = 1.5 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d_) * i_q
-
-                    # choose the maximum reference
-                    if np.size(torque) > 0:
-                        t = np.amax(torque)
-                        i_idx = np.where(torque == t)[0][0]
-                        i_d_best = i_d_[i_idx]
-                        i_q_best = i_q[i_idx]
+                i_d_idx = np.where(psi_**2 - np.power(self.psi_p + self.l_d * i_d, 2) >= 0)
+                i_d_ = i_d[i_d_idx]
+
+                # calculate all possible i_q currents for i_d currents
+                i_q = np.sqrt(psi_**2 - np.power(self.psi_p + self.l_d * i_d_, 2)) / self.l_q
+                i_idx = np.where(np.sqrt(np.power(i_q / self.i_sq_limit, 2) + np.power(i_d_ / self.i_sd_limit, 2)) <= 1)
+                i_d_ = i_d_[i_idx]
+                i_q = i_q[i_idx]
+                torque = 1.5 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d_) * i_q
+
+                # choose the maximum reference
+                if np.size(torque) > 0:
+                    t = np.amax(torque)
+                    i_idx = np.where(torque == t)[0][0]
+                    i_d_best = i_d_[i_idx]
+                    i_q_best = i_q[i_idx]
                 if np.sqrt(i_d_best**2 + i_q_best**2) <= self.i_sq_limit:
                     psi_i_d_q.append([psi_, t, i_d_best, i_q_best])
 
@@ -159,7 +152,10 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.l_d = self.mp["l_d"]
         self.l_q = self.mp["l_q"]
         self.psi_p = self.mp.get("psi_p", 0)
-        self.invert = -1 if (self.psi_p == 0 and self.l_q < self.l_d) else 1
+        # Without a permanent magnet and with l_q < l_d the roles of both axes are interchanged
+        self.invert = self.psi_p == 0 and self.l_q < self.l_d
+        if self.invert:
+            self.l_d, self.l_q = self.l_q, self.l_d
 
         # Set the parameters of the modulation controller
         self.k_ = 0.953
@@ -279,6 +275,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
         sol = np.roots(poly)  # Solve the equation
         i_d = np.real(sol[-1])  # Select the correct solution for the i_sd current
+        if self.psi_p == 0:
+            i_d = -np.abs(i_d)  # Without a permanent magnet the solutions are symmetric
         i_q = 2 * torque / (3 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d))  # Calculate the i_sq current
         return i_d, i_q
 
@@ -364,8 +362,9 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             i_d = self.mtpf[psi_max_idx, 2]
             i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
 
-        # invert the i_q if necessary
-        i_q = self.invert * i_q
+        # change the axes back if necessary
+        if self.invert:
+            i_d, i_q = -np.abs(i_q), np.sign(i_q) * i_d
 
         return np.array([i_d, i_q])
 
-- 
2.43.0


From 19387bfa888f6a68f7a2f28b1cd0719ead933201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:13 +0000
Subject: [PATCH 76/95] fix: unreachable torque requests of PMSM and SynRM are
 limited to the largest reachable torque

---
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 19d8c76..fc915f1 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -323,6 +323,10 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         Returns:
             current_reference(np.ndarray): references for the current control stage
         """
+        # limit the torque to the maximum torque within the current limit
+        max_torque = np.max(self.mtpf[:, 1])
+        reference = np.clip(reference, -max_torque, max_torque)
+
         # get the optimal psi for a given reference from the mtpc characteristic
         psi_idx_ = self._get_t_idx_mtpc(reference)
         psi_opt = self.mtpc[psi_idx_, 3]
-- 
2.43.0


From 585bb810c57b5ce57ddc57dca60722a48eafc473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:25 +0000
Subject: [PATCH 77/95] fix: table-based operating points use the MTPC currents
 of the limited torque

---
 src/gem_controllers/stages/operation_point_selection/pmsm_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index fc915f1..f807b6f 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -340,6 +340,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         t_max = np.abs(self.mtpf[psi_max_idx, 1])
         if np.abs(reference) > t_max:
             reference = np.sign(reference) * t_max
+            psi_idx_ = self._get_t_idx_mtpc(reference)
 
         # calculate the currents online
         if self.torque_control_type == "online":
-- 
2.43.0


From e0de25c62bbb8755201300dea94cf98cdd51ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 78/95] fix: PMSM operating points select the field weakening
 solution

---
 .../stages/operation_point_selection/pmsm_ops.py     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index f807b6f..47a480d 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -274,9 +274,17 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         ]
 
         sol = np.roots(poly)  # Solve the equation
-        i_d = np.real(sol[-1])  # Select the correct solution for the i_sd current
+        # Select the correct solution for the i_sd current
         if self.psi_p == 0:
-            i_d = -np.abs(i_d)  # Without a permanent magnet the solutions are symmetric
+            i_d = -np.abs(np.real(sol[-1]))  # Without a permanent magnet the solutions are symmetric
+        else:
+            # The least field weakening of all solutions with the torque in direction of the i_sq current
+            i_d = np.real(sol)
+            i_d = i_d[
+                (self.psi_p + (self.l_d - self.l_q) * i_d >= -1e-6 * self.psi_p)
+                & (np.abs(self.psi_p + self.l_d * i_d) <= psi * (1 + 1e-6))
+            ]
+            i_d = np.max(i_d) if i_d.size > 0 else np.real(sol[-1])
         i_q = 2 * torque / (3 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d))  # Calculate the i_sq current
         return i_d, i_q
 
-- 
2.43.0


From 9fe57824bc82adb106fba19390858aa3cdbfa9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 79/95] fix: EESM operating points are finite in field
 weakening

---
 .../stages/operation_point_selection/eesm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 551af14..9ab8782 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -251,7 +251,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
         psi = np.clip(psi_opt, 0, psi_max)
 
-        t_max = self.t_max_psi(psi_opt)
+        t_max = self.t_max_psi(np.clip(psi, 0, self.psi_max))
         t_ref_clip = np.clip(t_ref_clip, 0, t_max)
 
         t_idx = self._get_t_idx(t_ref_clip)
-- 
2.43.0


From d8f4bde0bac16f1fc6d39c15e94876223134c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:55 +0000
Subject: [PATCH 80/95] fix: SCIM operating points are finite for fluxes beyond
 the nominal voltage

---
 .../stages/operation_point_selection/scim_ops.py          | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 435c787..b77a4b7 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -81,9 +81,13 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         # Calculate the maximum torque for a given flux
         for psi_ in psi:
             i_sd = psi_ / self.l_m
+            # no torque is left if the flux alone needs more than the nominal voltage
             i_sq = np.sqrt(
-                self.nominal_value[self.u_sd_idx] ** 2 / (self.nominal_value[self.omega_idx] ** 2 * self.l_s**2)
-                - i_sd**2
+                max(
+                    self.nominal_value[self.u_sd_idx] ** 2 / (self.nominal_value[self.omega_idx] ** 2 * self.l_s**2)
+                    - i_sd**2,
+                    0.0,
+                )
             )
 
             t = 3 / 2 * self.p * self.l_m / self.l_r * psi_ * i_sq
-- 
2.43.0


From ea8c18c377d1473b0af63196805441686e3bb051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 81/95] fix: GemController.make accepts the environments
 gem.make returns

---
 src/gem_controllers/gem_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 08cd597..619cdec 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -64,6 +64,7 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
+        env = env.unwrapped  # gem.make() returns a wrapped environment
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
-- 
2.43.0


From 31bacd323fd81b7de8d2ed5641e3a9a9c5ddc3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 82/95] fix: the first episode of control_environment has
 max_episode_length steps, too

---
 src/gem_controllers/gem_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 619cdec..81860a6 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -160,7 +160,7 @@ class GemController:
         if self.block_diagram:
             self.block_diagram.open()
         self.reset()
-        current_episode_length = 0
+        current_episode_length = 1
         for _ in range(n_steps):  # Simulate the environment and controller for n steps
             if render_env:
                 env.render()  # Plot the states
-- 
2.43.0


From adefe43b7eb36561d1ef6b7d6a805e2b93267f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:07 +0000
Subject: [PATCH 83/95] fix: plotting controllers can be used before the
 environment has been rendered

---
 src/gem_controllers/reference_plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 053e481..1d8ef49 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -46,7 +46,8 @@ class ReferencePlotter:
             references(np.ndarray): Array of all reference values of the subordinate stages.
         """
 
-        if not self._maximum_reference_set:
+        # The axes of the plots exist from the first rendering on
+        if not self._maximum_reference_set and all(plot._axis is not None for plot in self._referenced_plots):
             for plot in self._referenced_plots:
                 if plot.state in ["i_e", "i_a", "i"] and plot.state in self._maximum_reference.keys():
                     label = dict(
-- 
2.43.0


From d5f96a15c2c7acfc65f00a4a91f46b46326fc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 84/95] fix: legend labels of the maximum armature and
 excitation current references can be drawn

---
 src/gem_controllers/reference_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 1d8ef49..920a2a0 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -51,7 +51,7 @@ class ReferencePlotter:
             for plot in self._referenced_plots:
                 if plot.state in ["i_e", "i_a", "i"] and plot.state in self._maximum_reference.keys():
                     label = dict(
-                        i="$i^*$$_{\mathrm{ max}}$", i_a="$i^*_{a}$$_\mathrm{ max}}$", i_e="$i^*_{e}$$_\mathrm{ max}}$"
+                        i="$i^*$$_{\mathrm{ max}}$", i_a="$i^*_{a}$$_{\mathrm{ max}}$", i_e="$i^*_{e}$$_{\mathrm{ max}}$"
                     )
                     plot._axis.axhline(self._maximum_reference[plot.state][0], c="g", linewidth=0.75, linestyle="--")
                     plot._axis.axhline(self._maximum_reference[plot.state][1], c="g", linewidth=0.75, linestyle="--")
-- 
2.43.0


From be8c821c3539347887702e4fe3d870a05265b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:46 +0000
Subject: [PATCH 85/95] fix: current controllers of the SCIM are tuned with the
 leakage inductance instead of the rotor time constant

---
 src/gem_controllers/parameter_reader.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 3b9f5dd..afd1dc9 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -72,15 +72,29 @@ l_reader = {
     "SCIM": lambda env: np.array(
         [
             (
+                env.physical_system.electrical_motor.motor_parameter["l_sigs"]
+                * env.physical_system.electrical_motor.motor_parameter["l_sigr"]
+                + env.physical_system.electrical_motor.motor_parameter["l_sigs"]
+                * env.physical_system.electrical_motor.motor_parameter["l_m"]
+                + env.physical_system.electrical_motor.motor_parameter["l_sigr"]
+                * env.physical_system.electrical_motor.motor_parameter["l_m"]
+            )
+            / (
                 env.physical_system.electrical_motor.motor_parameter["l_sigr"]
                 + env.physical_system.electrical_motor.motor_parameter["l_m"]
-            )
-            / env.physical_system.electrical_motor.motor_parameter["r_r"],
+            ),
             (
+                env.physical_system.electrical_motor.motor_parameter["l_sigs"]
+                * env.physical_system.electrical_motor.motor_parameter["l_sigr"]
+                + env.physical_system.electrical_motor.motor_parameter["l_sigs"]
+                * env.physical_system.electrical_motor.motor_parameter["l_m"]
+                + env.physical_system.electrical_motor.motor_parameter["l_sigr"]
+                * env.physical_system.electrical_motor.motor_parameter["l_m"]
+            )
+            / (
                 env.physical_system.electrical_motor.motor_parameter["l_sigr"]
                 + env.physical_system.electrical_motor.motor_parameter["l_m"]
-            )
-            / env.physical_system.electrical_motor.motor_parameter["r_r"],
+            ),
         ]
     ),
     "EESM": lambda env: np.array(
-- 
2.43.0


From 82a6da042532657bd447954ab8e61363c8a7ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 86/95] fix: DeadTimeProcessor delays the action's value, not
 the caller's array

---
 .../physical_system_wrappers/dead_time_processor.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 302a37f..ce4b6c3 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -1,4 +1,5 @@
 from collections import deque
+from copy import copy
 
 import gymnasium.spaces
 import numpy as np
@@ -81,5 +82,6 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             numpy.ndarray[float]: The next state of the system.
         """
         active_action = self._action_deque.pop()
-        self._action_deque.appendleft(action)
+        # Copy the action, the caller may reuse its array before the action is applied
+        self._action_deque.appendleft(copy(action))
         return self._physical_system.simulate(active_action)
-- 
2.43.0


From c86618e81411089d1b94cd9a5b1d402a8de4879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:14 +0000
Subject: [PATCH 87/95] fix: StateObserver reports the observed states and the
 references, also with a state filter and after a reset

---
 src/gym_electric_motor/core.py               | 3 +++
 src/gym_electric_motor/observers/observer.py | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 71deb34..9714995 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -321,6 +321,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         state = self._physical_system.reset()
         reference, next_ref, _ = self.reference_generator.reset(state)
         self._reward_function.reset(state, reference)
+        self.current_state = state
+        self.current_next_reference = next_ref
         self._call_callbacks("on_reset_end", state, reference)
 
         observation = (state[self.state_filter], next_ref)
@@ -359,6 +361,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         self._terminated = violation_degree >= 1.0
         ref_next = self.reference_generator.get_reference_observation(state)
 
+        self.current_next_reference = ref_next
         self.current_observation = (state, ref_next)
 
         self._call_callbacks(
diff --git a/src/gym_electric_motor/observers/observer.py b/src/gym_electric_motor/observers/observer.py
index eb489ae..9465751 100644
--- a/src/gym_electric_motor/observers/observer.py
+++ b/src/gym_electric_motor/observers/observer.py
@@ -43,7 +43,11 @@ class StateObserver(Observer):
         state_names = self.state_names
 
         if state in state_names:
-            state_value = self.env.current_state[state_names.index(state)]
+            env = self.env.unwrapped
+            if env.current_state is None:
+                raise ValueError(f"State '{state}' is None")
+            observation = (*env.current_state[env.state_filter], *env.current_next_reference)
+            state_value = observation[state_names.index(state)]
             if state_value is not None:
                 return (state, state_value)
             else:
-- 
2.43.0


From e8b034d93d708db19eef70d7e34fc10090229bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:35 +0000
Subject: [PATCH 88/95] fix: the simulation environment counts the simulated
 steps

---
 src/gym_electric_motor/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 9714995..bb1c4d9 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -321,6 +321,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         state = self._physical_system.reset()
         reference, next_ref, _ = self.reference_generator.reset(state)
         self._reward_function.reset(state, reference)
+        self.sim.step = self._physical_system.k
         self.current_state = state
         self.current_next_reference = next_ref
         self._call_callbacks("on_reset_end", state, reference)
@@ -353,6 +354,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         self._call_callbacks("on_step_begin", self.physical_system.k, action)
 
         state = self._physical_system.simulate(action)
+        self.sim.step = self._physical_system.k
         self.current_state = state
         reference = self.reference_generator.get_reference(state)
 
-- 
2.43.0


From be214e6efd875d30ee4b3babe382d90ea6339fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:21 +0000
Subject: [PATCH 89/95] fix: a mean of zero for random initial values is a
 given mean

---
 .../physical_systems/electric_motors/electric_motor.py        | 4 +++-
 .../physical_systems/mechanical_loads/mechanical_load.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 52cdf10..d42e43e 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -238,7 +238,9 @@ class ElectricMotor(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                mue = random_params[0]
+                if mue is None:
+                    mue = (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
                 a, b = (lower_bound - mue) / sigma, (upper_bound - mue) / sigma
                 initial_value = truncnorm.rvs(
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 4c69793..5fb20d4 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -144,7 +144,9 @@ class MechanicalLoad(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                mue = random_params[0]
+                if mue is None:
+                    mue = (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
                 a = (lower_bound - mue) / sigma
                 b = (upper_bound - mue) / sigma
-- 
2.43.0


From d76a7b7cfd0d0f5ce7e1bd97023f9ee3f542c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:29 +0000
Subject: [PATCH 90/95] fix: missing current limits of three phase motors are
 derived from the voltage limits

---
 .../electric_motors/doubly_fed_induction_motor.py  | 14 ++++++++------
 .../squirrel_cage_induction_motor.py               | 14 ++++++++------
 .../electric_motors/synchronous_motor.py           | 14 ++++++++------
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index a566e28..f78e0e6 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -137,18 +137,20 @@ class DoublyFedInductionMotor(InductionMotor):
 
         voltage_limit = 0.5 * self._limits["u"]
         voltage_nominal = 0.5 * self._nominal_values["u"]
-        limits_agenda = {}
-        nominal_agenda = {}
+        current_limit = self._limits.get("i", None) or voltage_limit / self._motor_parameter["r_r"]
+        current_nominal = self._nominal_values.get("i", None) or min(
+            current_limit, voltage_nominal / self._motor_parameter["r_r"]
+        )
+        limits_agenda = {"i": current_limit}
+        nominal_agenda = {"i": current_nominal}
         for u, i in zip(
             self.IO_VOLTAGES + self.ROTOR_VOLTAGES,
             self.IO_CURRENTS + self.ROTOR_CURRENTS,
         ):
             limits_agenda[u] = voltage_limit
             nominal_agenda[u] = voltage_nominal
-            limits_agenda[i] = self._limits.get("i", None) or self._limits[u] / self._motor_parameter["r_r"]
-            nominal_agenda[i] = (
-                self._nominal_values.get("i", None) or self._nominal_values[u] / self._motor_parameter["r_r"]
-            )
+            limits_agenda[i] = current_limit
+            nominal_agenda[i] = current_nominal
         super()._update_limits(limits_agenda, nominal_agenda)
 
     def _update_initial_limits(self, nominal_new={}, omega=None):
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index 313fec9..e8bf0d3 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -132,15 +132,17 @@ class SquirrelCageInductionMotor(InductionMotor):
         # Docstring of superclass
         voltage_limit = 0.5 * self._limits["u"]
         voltage_nominal = 0.5 * self._nominal_values["u"]
-        limits_agenda = {}
-        nominal_agenda = {}
+        current_limit = self._limits.get("i", None) or voltage_limit / self._motor_parameter["r_s"]
+        current_nominal = self._nominal_values.get("i", None) or min(
+            current_limit, voltage_nominal / self._motor_parameter["r_s"]
+        )
+        limits_agenda = {"i": current_limit}
+        nominal_agenda = {"i": current_nominal}
         for u, i in zip(self.IO_VOLTAGES, self.IO_CURRENTS):
             limits_agenda[u] = voltage_limit
             nominal_agenda[u] = voltage_nominal
-            limits_agenda[i] = self._limits.get("i", None) or self._limits[u] / self._motor_parameter["r_s"]
-            nominal_agenda[i] = (
-                self._nominal_values.get("i", None) or self._nominal_values[u] / self._motor_parameter["r_s"]
-            )
+            limits_agenda[i] = current_limit
+            nominal_agenda[i] = current_nominal
         super()._update_limits(limits_agenda, nominal_agenda)
 
     def _update_initial_limits(self, nominal_new={}, omega=None):
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index 3aeb428..052dc0e 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -176,14 +176,16 @@ class SynchronousMotor(ThreePhaseMotor):
 
         voltage_limit = 0.5 * self._limits["u"]
         voltage_nominal = 0.5 * self._nominal_values["u"]
+        current_limit = self._limits.get("i", None) or voltage_limit / self._motor_parameter["r_s"]
+        current_nominal = self._nominal_values.get("i", None) or min(
+            current_limit, voltage_nominal / self._motor_parameter["r_s"]
+        )
 
-        limits_agenda = {}
-        nominal_agenda = {}
+        limits_agenda = {"i": current_limit}
+        nominal_agenda = {"i": current_nominal}
         for u, i in zip(self.IO_VOLTAGES, self.IO_CURRENTS):
             limits_agenda[u] = voltage_limit
             nominal_agenda[u] = voltage_nominal
-            limits_agenda[i] = self._limits.get("i", None) or self._limits[u] / self._motor_parameter["r_s"]
-            nominal_agenda[i] = (
-                self._nominal_values.get("i", None) or self._nominal_values[u] / self._motor_parameter["r_s"]
-            )
+            limits_agenda[i] = current_limit
+            nominal_agenda[i] = current_nominal
         super()._update_limits(limits_agenda, nominal_agenda)
-- 
2.43.0


From 7f7eb2a5a9624b482dae22790359a0bd6131e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:39 +0000
Subject: [PATCH 91/95] fix: conversions with a normalised angle leave the
 angle of the caller unchanged

---
 .../physical_systems/physical_systems.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index a065f6e..8164eab 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -362,7 +362,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_d, quantity_q): The quantities in the dq-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         dq_quantity = self._electrical_motor.q_inv(self._electrical_motor.t_23(abc_quantities), epsilon_el)
         return dq_quantity
 
@@ -379,7 +379,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_a, quantity_b, quantity_c): The quantities in the abc-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         return self._electrical_motor.t_32(self._electrical_motor.q(dq_quantities, epsilon_el))
 
     def alphabeta_to_dq_space(self, alphabeta_quantities, epsilon_el, normed_epsilon=False):
@@ -395,7 +395,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_d, quantity_q): The quantities in the dq-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         dq_quantity = self._electrical_motor.q_inv(alphabeta_quantities, epsilon_el)
         return dq_quantity
 
@@ -412,7 +412,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_alpha, quantity_beta): The quantities in the alphabeta-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         return self._electrical_motor.q(dq_quantities, epsilon_el)
 
 
-- 
2.43.0


From 0f3f06bd8672746c513edeebc80e07050ca0ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:13 +0000
Subject: [PATCH 92/95] fix: induction motor systems pass the speed, not all
 mechanical states, to the motor's reset

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 8164eab..4b6ef20 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -826,7 +826,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         motor_state = self._electrical_motor.reset(
             state_space=self.state_space,
             state_positions=self.state_positions,
-            omega=mechanical_state,
+            omega=mechanical_state[self._omega_ode_idx],
         )
         ode_state = np.concatenate((mechanical_state, motor_state))
         u_sup = self.supply.reset()
@@ -1068,7 +1068,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         motor_state = self._electrical_motor.reset(
             state_space=self.state_space,
             state_positions=self.state_positions,
-            omega=mechanical_state,
+            omega=mechanical_state[self._omega_ode_idx],
         )
         ode_state = np.concatenate((mechanical_state, motor_state))
         u_sup = self.supply.reset()
-- 
2.43.0


From c1fb09609b754e83b9ef59573c772f3d89d21d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:07 +0000
Subject: [PATCH 93/95] fix: keyword arguments of the multiple reference
 generator reach its sub generators

---
 .../reference_generators/multiple_reference_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/multiple_reference_generator.py b/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
index b0d9d01..e55c3dd 100644
--- a/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
@@ -18,7 +18,7 @@ class MultipleReferenceGenerator(ReferenceGenerator, RandomComponent):
                 will be passed to each sub_generator.
             kwargs: All kwargs of the environment. Passed to the sub_generators, if no sub_args are passed.
         """
-        ReferenceGenerator.__init__(self, **kwargs)
+        ReferenceGenerator.__init__(self)
         RandomComponent.__init__(self)
         self.reference_space = Box(-1, 1, shape=(1,), dtype=np.float64)
         if isinstance(sub_args, dict):
-- 
2.43.0


From 9420f51a12a6e37e54549f7248ad827a1270b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:43 +0000
Subject: [PATCH 94/95] fix: rendering a dashboard no longer closes the figures
 of other dashboards or of the user

---
 src/gym_electric_motor/visualization/motor_dashboard.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard.py b/src/gym_electric_motor/visualization/motor_dashboard.py
index 8afa29e..563410a 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard.py
@@ -219,12 +219,17 @@ class MotorDashboardLegacy(ElectricMotorVisualization):
         for plot in self._plots:
             plot.reset_data()
         self._episodic_plot_figure = self._time_plot_figure = self._step_plot_figure = None
+        self._close_figures()
+
+    def _close_figures(self):
+        """Close the figures of this dashboard, but no figures of other dashboards or of the user."""
+        for figure in self._figures:
+            plt.close(figure)
         self._figures = []
 
     def initialize(self):
         """Called with first render() call to setup the figures and plots."""
-        plt.close()
-        self._figures = []
+        self._close_figures()
 
         if plt.get_backend() in ["nbAgg", "module://ipympl.backend_nbagg"]:
             self._initialize_figures_notebook()
-- 
2.43.0


From ea3b3dee49a902f258a37069e8cc253577f3d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:51 +0000
Subject: [PATCH 95/95] fix: the state space of three-phase systems covers the
 range of the supply voltage

---
 .../physical_systems/physical_systems.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 4b6ef20..c9bc948 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -438,8 +438,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(0.0, self._supply.supply_range[0] / self._supply.u_nominal)
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
@@ -568,8 +569,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(0.0, self._supply.supply_range[0] / self._supply.u_nominal)
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
@@ -714,8 +716,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(0.0, self._supply.supply_range[0] / self._supply.u_nominal)
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
@@ -885,8 +888,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(0.0, self._supply.supply_range[0] / self._supply.u_nominal)
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
-- 
2.43.0

