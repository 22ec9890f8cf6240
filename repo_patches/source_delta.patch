From 777cb1c6607f92eb35c8c0a7540021f1d0218ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:27 +0000
Subject: [PATCH 01/54] fix: accept an array of spring constants in the
 SpringDamperSystem constructor

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index f02bb6a..6de45cb 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -48,7 +48,7 @@ class SpringDamperSystem(DynamicalSystem):
         self._y_attr = y_attr
         self.damping_coefficient = damping_coefficient
         self.mass = mass
-        if spring_constant == "CRITICALLY_DAMPED":
+        if isinstance(spring_constant, str) and spring_constant == "CRITICALLY_DAMPED":
             self.spring_constant = damping_coefficient * damping_coefficient / 4
         else:
             self.spring_constant = spring_constant
-- 
2.43.0


From e5b45316adafed0d4f1b6ad34468eb3aab5017b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:27 +0000
Subject: [PATCH 02/54] fix: initial velocity in
 SpringDamperSystem.analytical_solution (z is tau times yd)

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index 6de45cb..3d22657 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -145,7 +145,7 @@ class SpringDamperSystem(DynamicalSystem):
 
         for i_dim in range(self._dim_y):
             y0 = self._x_init[i_dim] - self._y_attr[i_dim]
-            yd0 = self._x_init[self._dim_y + i_dim]
+            yd0 = self._x_init[self._dim_y + i_dim] / self._tau  # because z = tau * yd
 
             A = y0  # noqa
             B = yd0 + omega_0s[i_dim] * y0  # noqa
-- 
2.43.0


From 4dfed965eb32c9c93eb40bc24ffc5dba0916d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:55 +0000
Subject: [PATCH 03/54] fix: goal changes reach a RichardsSystem goal system
 (y_attr sets the right asymptote)

---
 dmpbbo/dmps/Dmp.py                        |  3 ++-
 dmpbbo/dynamicalsystems/RichardsSystem.py | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index ab4f99f..1bd3843 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -254,7 +254,8 @@ class Dmp(DynamicalSystem, Parameterizable):
             xd[self.GOAL] = np.zeros(self._dim_y)
         else:
             # Integrate goal system and get current goal state
-            self._goal_system.y_attr = self._y_attr
+            if not self.goal_system_requires_scaling:
+                self._goal_system.y_attr = self._y_attr
             xd[self.GOAL] = self._goal_system.differential_equation(x[self.GOAL])
             if not self.goal_system_requires_scaling:
                 # The goal state is the attractor state of the spring-damper system
diff --git a/dmpbbo/dynamicalsystems/RichardsSystem.py b/dmpbbo/dynamicalsystems/RichardsSystem.py
index ace433a..e648411 100644
--- a/dmpbbo/dynamicalsystems/RichardsSystem.py
+++ b/dmpbbo/dynamicalsystems/RichardsSystem.py
@@ -35,6 +35,16 @@ class RichardsSystem(DynamicalSystem):
         self.t_infl_ratio = t_infl_ratio
         self.left_asymp = None
 
+    @property
+    def y_attr(self):
+        """ Return the y part of the attractor state, i.e. the right asymptote.
+        """
+        return self.right_asymp
+
+    @y_attr.setter
+    def y_attr(self, new_y_attr):
+        self.right_asymp = new_y_attr
+
     def set_left_asymp(self, left_asymp):
         self.left_asymp = left_asymp
 
-- 
2.43.0


From fa57cb376dabcb0c7812957df82ddfd4ed44aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:37 +0000
Subject: [PATCH 04/54] fix: pass the regularization of LWR on to its least
 squares regressions

---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 8ea4626..60582da 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -57,8 +57,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
 
         # Prepare the weighted-least squares function approximator
         reg = meta_params["regularization"]
-        wls_meta_params = {"regularization": reg, "use_offset": True}
-        fa_lws = FunctionApproximatorWLS(wls_meta_params)
+        fa_lws = FunctionApproximatorWLS(use_offset=True, regularization=reg)
 
         # Perform one weighted least squares regression for each kernel
         activations = FunctionApproximatorLWR._activations(inputs, model_params)
-- 
2.43.0


From 43207e1e01fca5a3319f42fbbda14bf6e01731a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:37 +0000
Subject: [PATCH 05/54] fix: set_param_vector copies the values and accepts
 scalar model parameters

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 1ae8c97..3cd0eaf 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -141,8 +141,8 @@ class FunctionApproximator(Parameterizable):
         offset = 0
         for label in self._selected_param_names:
             expected_shape = self._model_params[label].shape
-            cur_n_values = np.prod(expected_shape)
-            cur_values = values[offset : offset + cur_n_values]
+            cur_n_values = int(np.prod(expected_shape))
+            cur_values = np.array(values[offset : offset + cur_n_values])
             self._model_params[label] = np.reshape(cur_values, expected_shape)
             offset += cur_n_values
 
@@ -153,7 +153,7 @@ class FunctionApproximator(Parameterizable):
         size = 0
         for label in self._selected_param_names:
             if label in self._model_params:
-                size += np.prod(self._model_params[label].shape)
+                size += int(np.prod(self._model_params[label].shape))
         return size
 
     def _get_axis(self, fig=None):
-- 
2.43.0


From 81a05866f1cf4b2c2ac443d89f6a9d17f409c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:37 +0000
Subject: [PATCH 06/54] fix: the parameter vector is empty when no parameter is
 selected

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 3cd0eaf..fde2bd4 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -116,7 +116,7 @@ class FunctionApproximator(Parameterizable):
 
     def get_param_vector(self):
         if self._selected_param_names is None:
-            return np.array(0)
+            return np.empty(0)
 
         """Get a vector containing the values of the selected parameters."""
         if not self.is_trained():
@@ -139,7 +139,7 @@ class FunctionApproximator(Parameterizable):
             )
 
         offset = 0
-        for label in self._selected_param_names:
+        for label in self._selected_param_names or []:
             expected_shape = self._model_params[label].shape
             cur_n_values = int(np.prod(expected_shape))
             cur_values = np.array(values[offset : offset + cur_n_values])
-- 
2.43.0


From f61c6cde2521b262f16fd1d21f47ce7c6b9a6c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:07 +0000
Subject: [PATCH 07/54] fix: GPR copies its training inputs (later changes by
 the caller changed the predictions)

---
 dmpbbo/functionapproximators/FunctionApproximatorGPR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorGPR.py b/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
index b2aeb9d..79b0837 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
@@ -49,7 +49,7 @@ class FunctionApproximatorGPR(FunctionApproximator):
     def _train(inputs, targets, meta_params, **kwargs):
 
         model_params = {
-            "inputs": inputs,
+            "inputs": np.array(inputs),
             "lengths": np.full(inputs.shape, meta_params["lengths"]),
             "max_covariance": meta_params["max_covariance"],
         }
-- 
2.43.0


From d0fd6467556135a4bdcf94d868075e456d783052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:21 +0000
Subject: [PATCH 08/54] fix: Dmp.integrate_start accepts an initial state
 vector

---
 dmpbbo/dmps/Dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 1bd3843..9dbb8fc 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -196,7 +196,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         @param y_init: The initial state vector (y part)
         @return: x, xd - The first vector of state variables and their rates of change
         """
-        if y_init:
+        if y_init is not None:
             self.y_init = y_init
 
         x = np.zeros(self._dim_x)
-- 
2.43.0


From 62ec393edbc82d030274b16da94876a11c9240f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:21 +0000
Subject: [PATCH 09/54] fix: set the initial state used for scaling in the Dmp
 constructor

---
 dmpbbo/dmps/Dmp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 9dbb8fc..741c9d4 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -69,6 +69,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         dim_dmp += y_init.size  # new: damping coefficient system
         super().__init__(1, tau, y_init, dim_dmp)
 
+        self._y_init = y_init
         self._y_attr = y_attr
         self._function_approximators = function_approximators
 
-- 
2.43.0


From 777eb8e47b3f2b4a694823e76694fe29246b998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:21 +0000
Subject: [PATCH 10/54] fix: Dmp.y_init returns the initial state that was set

---
 dmpbbo/dmps/Dmp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 741c9d4..49adac5 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -593,7 +593,8 @@ class Dmp(DynamicalSystem, Parameterizable):
         """
         if y_init_new.size != self.dim_dmp():
             raise ValueError("y_init must have same size {self.dim_dmp()}")
-        self._y_init = y_init_new  # noqa defined inside DynamicalSystem.__init__ of
+        self._y_init = y_init_new
+        self._x_init[: self._dim_y] = y_init_new
 
         # Set value in all relevant subsystems also
         self._spring_system.y_init = y_init_new
-- 
2.43.0


From a38ed4a33cfe4449eb92c6cc974721860ff6a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:21 +0000
Subject: [PATCH 11/54] fix: Dmp.tau also sets the time constant of the damping
 system

---
 dmpbbo/dmps/Dmp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 49adac5..8b0adf8 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -585,6 +585,9 @@ class Dmp(DynamicalSystem, Parameterizable):
         if self._goal_system is not None:
             self._goal_system.tau *= tau_scale
 
+        if self._damping_system is not None:
+            self._damping_system.tau *= tau_scale
+
     @DynamicalSystem.y_init.setter
     def y_init(self, y_init_new):
         """ Set the initial state (y-part)
-- 
2.43.0


From 9d7acaceadc576a83d314b7cee1f5952b00914c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:21 +0000
Subject: [PATCH 12/54] fix: a new parameter selection replaces a previously
 selected goal

---
 dmpbbo/dmps/Dmp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 8b0adf8..de87ac0 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -650,6 +650,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         if isinstance(names, str):
             names = [names]  # Convert to list
 
+        self._selected_param_names = []
         if "goal" in names:
             self._selected_param_names = ["goal"]
             # No need to bother function approximators with it: remove all occurrences
-- 
2.43.0


From 08da4895606b0f143c020b041fb18333bef23b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:40 +0000
Subject: [PATCH 13/54] fix: Dmp.set_param_vector copies the goal (and accepts
 a list)

---
 dmpbbo/dmps/Dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index de87ac0..c13848c 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -708,7 +708,7 @@ class Dmp(DynamicalSystem, Parameterizable):
                     fa.set_param_vector(cur_values)
                     offset += cur_size
         if "goal" in self._selected_param_names:
-            self.y_attr = values[offset : offset + self.dim_dmp()]
+            self.y_attr = np.array(values[offset : offset + self.dim_dmp()])
 
     def get_param_vector_size(self):
         return self._get_param_vector_size_local()
-- 
2.43.0


From 5804d9042c20bd8a42948059ed5142862eaeba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:16:30 +0000
Subject: [PATCH 14/54] fix: schedule bounds given as arrays, equal to zero, or
 for a single time step

---
 dmpbbo/dmps/DmpWithSchedules.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index 2bcaa45..10e5477 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -139,12 +139,11 @@ class DmpWithSchedules(Dmp):
         if self.min_schedules is None and self.max_schedules is None:
             # No bounds, simply return schedules
             return schedules
-        if schedules.ndim == 1:
-            schedules = schedules.reshape((schedules.shape[0], 1))
         for i_dim in range(len(self._func_apps_schedules)):
-            min_sched = self.min_schedules[i_dim] if self.min_schedules else None
-            max_sched = self.max_schedules[i_dim] if self.max_schedules else None
-            schedules[:, i_dim] = np.clip(schedules[:, i_dim], min_sched, max_sched)
+            min_sched = None if self.min_schedules is None else self.min_schedules[i_dim]
+            max_sched = None if self.max_schedules is None else self.max_schedules[i_dim]
+            # The last dimension is that of the schedules, also for a single time step
+            schedules[..., i_dim] = np.clip(schedules[..., i_dim], min_sched, max_sched)
         return schedules
 
     def integrate_start_sched(self, y_init=None):
-- 
2.43.0


From 4f208f1a66e7cde2b63902d2b53a8587d4d0ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:16:30 +0000
Subject: [PATCH 15/54] fix: DmpWithSchedules accepts a matrix of schedules for
 training

---
 dmpbbo/dmps/DmpWithSchedules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index 10e5477..fae91ac 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -91,7 +91,7 @@ class DmpWithSchedules(Dmp):
 
         xs, _, _, _ = self.analytical_solution()
         inputs = xs[:, self.PHASE]
-        targets = schedules or trajectory.misc
+        targets = trajectory.misc if schedules is None else schedules
 
         if targets is None:
             raise ValueError(
-- 
2.43.0


From e3779f217ed412761c7344e8807bbb973ae449ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:35 +0000
Subject: [PATCH 16/54] fix: DmpContextualTwoStep.dim_dmp returns the
 dimensionality

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index ea7369a..e8d4b56 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -166,7 +166,7 @@ class DmpContextualTwoStep(DynamicalSystem):
         return dmp_contextual
 
     def dim_dmp(self):
-        return self.dmp.dim_dmp
+        return self.dmp.dim_dmp()
 
     def set_task_params(self, task_params):
         dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.
-- 
2.43.0


From 4b044bce3b73bbbe80e8151cad5c4dc13e52eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:35 +0000
Subject: [PATCH 17/54] fix: DmpContextualTwoStep.integrate_start passes a
 vector of parameters

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index e8d4b56..a48534d 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -188,7 +188,7 @@ class DmpContextualTwoStep(DynamicalSystem):
 
         # Predict dmp parameters from task parameters using the ppf
         n_params = self.dmp.get_param_vector_size()
-        param_vector = np.zeros((n_params, 1))
+        param_vector = np.zeros(n_params)
         for i_param in range(n_params):
             param_vector[i_param] = self.ppf[i_param].predict(task_params)
 
-- 
2.43.0


From e88e72ae264fbf8fdecba3a5d66e6b10b16ce30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:43:46 +0000
Subject: [PATCH 18/54] fix: DmpContextualTwoStep.tau/y_init/y_attr are those
 of the DMP that is parameterized

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 36 +++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index a48534d..67aaede 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -165,6 +165,42 @@ class DmpContextualTwoStep(DynamicalSystem):
 
         return dmp_contextual
 
+    @property
+    def tau(self):
+        """ Get the time constant (of the DMP that is parameterized)
+
+        @return: Time constant
+        """
+        return self.dmp.tau
+
+    @tau.setter
+    def tau(self, new_tau):
+        self.dmp.tau = new_tau
+
+    @property
+    def y_init(self):
+        """ Get the initial state (y-part, of the DMP that is parameterized)
+
+        @return: Initial state
+        """
+        return self.dmp.y_init
+
+    @y_init.setter
+    def y_init(self, y_init_new):
+        self.dmp.y_init = y_init_new
+
+    @property
+    def y_attr(self):
+        """ Get the attractor state (y-part, of the DMP that is parameterized)
+
+        @return: Attractor state
+        """
+        return self.dmp.y_attr
+
+    @y_attr.setter
+    def y_attr(self, y_attr_new):
+        self.dmp.y_attr = y_attr_new
+
     def dim_dmp(self):
         return self.dmp.dim_dmp()
 
-- 
2.43.0


From 202438cf3695ba1de7727b183c38555ac014ffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:43:46 +0000
Subject: [PATCH 19/54] fix: states_as_pos_vel_acc accepts a sequence of states
 (as documented)

---
 dmpbbo/dmps/Dmp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index c13848c..169737c 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -544,7 +544,11 @@ class Dmp(DynamicalSystem, Parameterizable):
         @param xd_in:  Derivative of state (n_samples X dim_x)
         @return: positions, velocities and accelerations over time (each n_samples X dim_y)
         """
-        return x_in[self.SPRING_Y], xd_in[self.SPRING_Y], xd_in[self.SPRING_Z] / self._tau
+        return (
+            x_in[..., self.SPRING_Y],
+            xd_in[..., self.SPRING_Y],
+            xd_in[..., self.SPRING_Z] / self._tau,
+        )
 
     def states_as_trajectory(self, ts, x_in, xd_in):
         """Get the output of a DMP dynamical system as a trajectory.
-- 
2.43.0


From 15f84d999bd34cdcf6087d9451ef8351b4be49b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:23 +0000
Subject: [PATCH 20/54] fix: boundary velocities/accelerations of polynomial
 trajectories only held for duration 1

---
 dmpbbo/dmps/Trajectory.py |  5 +++++
 src/dmp/Trajectory.cpp    | 14 +++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 2310f76..7c8e898 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -316,6 +316,11 @@ class Trajectory:
         @param ydd_to: Final accelerations
         @return:
         """
+        # Polynomial is computed for normalized time in [0,1], so normalize derivatives also
+        duration = ts[-1] - ts[0]
+        yd_from, yd_to = yd_from * duration, yd_to * duration
+        ydd_from, ydd_to = ydd_from * duration ** 2, ydd_to * duration ** 2
+
         a0 = y_from
         a1 = yd_from
         a2 = ydd_from / 2
diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index be4b8cb..a392fe7 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -172,10 +172,18 @@ Trajectory Trajectory::generateMinJerkTrajectory(const VectorXd& ts,
 }
 
 Trajectory Trajectory::generatePolynomialTrajectory(
-    const VectorXd& ts, const VectorXd& y_from, const VectorXd& yd_from,
-    const VectorXd& ydd_from, const VectorXd& y_to, const VectorXd& yd_to,
-    const VectorXd& ydd_to)
+    const VectorXd& ts, const VectorXd& y_from, const VectorXd& yd_from_time,
+    const VectorXd& ydd_from_time, const VectorXd& y_to,
+    const VectorXd& yd_to_time, const VectorXd& ydd_to_time)
 {
+  // Polynomial is computed for normalized time in [0,1], so normalize
+  // derivatives also
+  double duration = ts[ts.size() - 1] - ts[0];
+  VectorXd yd_from = yd_from_time * duration;
+  VectorXd ydd_from = ydd_from_time * duration * duration;
+  VectorXd yd_to = yd_to_time * duration;
+  VectorXd ydd_to = ydd_to_time * duration * duration;
+
   VectorXd a0 = y_from;
   VectorXd a1 = yd_from;
   VectorXd a2 = ydd_from / 2;
-- 
2.43.0


From 7c40a8fc3c576232947d0725a64a5387c2426838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:23 +0000
Subject: [PATCH 21/54] fix: min-jerk trajectories with a start time other than
 0 did not start at y_from

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 src/dmp/Trajectory.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 7c8e898..ff7d205 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -413,8 +413,8 @@ class Trajectory:
         yds = np.zeros([n_time_steps, n_dims])
         ydds = np.zeros([n_time_steps, n_dims])
 
-        D = ts[n_time_steps - 1]  # noqa
-        tss = ts / D
+        D = ts[n_time_steps - 1] - ts[0]  # noqa
+        tss = (ts - ts[0]) / D
 
         A = y_to - y_from  # noqa
 
diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index a392fe7..682d62e 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -149,8 +149,8 @@ Trajectory Trajectory::generateMinJerkTrajectory(const VectorXd& ts,
   MatrixXd ys(n_time_steps, n_dims), yds(n_time_steps, n_dims),
       ydds(n_time_steps, n_dims);
 
-  double D = ts[n_time_steps - 1];
-  ArrayXd tss = (ts / D).array();
+  double D = ts[n_time_steps - 1] - ts[0];
+  ArrayXd tss = (ts.array() - ts[0]) / D;
 
   ArrayXd A = y_to.array() - y_from.array();
 
-- 
2.43.0


From ed90013706f6b4a4ff22e7f8904831bac6df5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:23 +0000
Subject: [PATCH 22/54] fix: cropping a trajectory beyond its end dropped the
 last time step

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index ff7d205..5dd84ce 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -267,9 +267,9 @@ class Trajectory:
                 # Get first index when time is larger than 'start'
                 start = np.argmax(self._ts >= start)
 
-            if end >= self._ts[-1]:
+            if end > self._ts[-1]:
                 # Time 'end' is larger than the last time in the trajectory
-                end = len(self._ts) - 1
+                end = len(self._ts)
             else:
                 # Get first index when time is smaller than 'end'
                 end = np.argmax(self._ts >= end)
-- 
2.43.0


From 02dea6347009fcc17ad4e574aa50f702fd51a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:23 +0000
Subject: [PATCH 23/54] fix: padding raised for some numbers of time steps
 (floating-point arange)

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 5dd84ce..3a83f3b 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -282,7 +282,7 @@ class Trajectory:
             self._misc = self._misc[start:end, :]
 
     def pad_front(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
+        ts_padding = np.arange(n_padding) * self._dt_mean
         ys_padding = np.tile(self.y_init, (n_padding, 1))
         prepend_traj = Trajectory(
             ts_padding,
@@ -293,7 +293,7 @@ class Trajectory:
         self.prepend(prepend_traj)
 
     def pad_end(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
+        ts_padding = np.arange(n_padding) * self._dt_mean
         ys_padding = np.tile(self.y_final, (n_padding, 1))
         append_traj = Trajectory(
             ts_padding,
-- 
2.43.0


From d78eb81b897b89f023a18c87505a2593019093f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:23 +0000
Subject: [PATCH 24/54] fix: prepending a trajectory of one time step, or not
 starting at time 0, gave wrong times

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 3a83f3b..fc820da 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -454,8 +454,8 @@ class Trajectory:
 
         @param trajectory:  The trajectory to append.
         """
-        self.set_start_time_to_zero()
-        self.ts[:] += trajectory.duration + trajectory._dt_mean
+        dt = trajectory._dt_mean if trajectory.length > 1 else self._dt_mean
+        self._ts = (self._ts - self._ts[0]) + (trajectory.ts[-1] + dt)
         self._ts = np.concatenate((trajectory.ts, self._ts))
         self._ys = np.concatenate((trajectory.ys, self._ys))
         self._yds = np.concatenate((trajectory.yds, self._yds))
-- 
2.43.0


From 843556031d01218b2dbf54f7fec14fe191974565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:23 +0000
Subject: [PATCH 25/54] fix: mean time step was not updated when appending,
 prepending or cropping

---
 dmpbbo/dmps/Trajectory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index fc820da..f9f55e8 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -280,6 +280,8 @@ class Trajectory:
         self._ydds = self._ydds[start:end, :]
         if self._misc is not None:
             self._misc = self._misc[start:end, :]
+        if self._ts.size > 1:
+            self._dt_mean = np.mean(np.diff(self._ts))
 
     def pad_front(self, n_padding=100):
         ts_padding = np.arange(n_padding) * self._dt_mean
@@ -447,6 +449,8 @@ class Trajectory:
             self._misc = None
         else:
             self._misc = np.concatenate((self._misc, trajectory.misc))
+        self._dt_mean = np.mean(np.diff(self._ts))
+
     def prepend(self, trajectory):
         """ Prepend another trajectory to this one.
 
@@ -464,6 +468,7 @@ class Trajectory:
             self._misc = None
         else:
             self._misc = np.concatenate((trajectory.misc, self._misc))
+        self._dt_mean = np.mean(np.diff(self._ts))
 
     def as_matrix(self):
         """ Return the trajectory as a matrix.
-- 
2.43.0


From 7690ba3e4e9cb08aff78c7ef1e9ff451c2afa296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:23 +0000
Subject: [PATCH 26/54] fix: loading a trajectory of one time step raised

---
 dmpbbo/dmps/Trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index f9f55e8..aa0bc00 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -514,7 +514,7 @@ class Trajectory:
         @param n_dims_misc: The number of miscellaneous variables in the trajectory. This needs
         to be specified, because it cannot be stored in the matrix.
         """
-        data = np.loadtxt(filename)
+        data = np.loadtxt(filename, ndmin=2)
 
         (n_time_steps, n_cols) = data.shape
         n_dims = (n_cols - 1 - n_dims_misc) // 3
-- 
2.43.0


From 810ffa550209dca19a4e397447f2c9e8d29984bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:03 +0000
Subject: [PATCH 27/54] fix: polynomial trajectories did not end at y_to for a
 non-zero initial acceleration

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 src/dmp/Trajectory.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index aa0bc00..6776c64 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -327,8 +327,8 @@ class Trajectory:
         a1 = yd_from
         a2 = ydd_from / 2
 
-        a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
-        a4 = 15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
+        a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
+        a4 = 15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
         a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to - 3 * yd_to + 0.5 * ydd_to
 
         n_time_steps = ts.size
diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 682d62e..f6f81d0 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -188,10 +188,10 @@ Trajectory Trajectory::generatePolynomialTrajectory(
   VectorXd a1 = yd_from;
   VectorXd a2 = ydd_from / 2;
 
-  VectorXd a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to -
+  VectorXd a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to -
                 4 * yd_to + 0.5 * ydd_to;
   VectorXd a4 =
-      15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to;
+      15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to;
   VectorXd a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to -
                 3 * yd_to + 0.5 * ydd_to;
 
-- 
2.43.0


From 841ecfbc33373c2605f644ee070cc51951699913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:48:43 +0000
Subject: [PATCH 28/54] fix: prepending a trajectory to itself gave wrong times

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 6776c64..d135cfc 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -459,8 +459,8 @@ class Trajectory:
         @param trajectory:  The trajectory to append.
         """
         dt = trajectory._dt_mean if trajectory.length > 1 else self._dt_mean
-        self._ts = (self._ts - self._ts[0]) + (trajectory.ts[-1] + dt)
-        self._ts = np.concatenate((trajectory.ts, self._ts))
+        ts_shifted = (self._ts - self._ts[0]) + (trajectory.ts[-1] + dt)
+        self._ts = np.concatenate((trajectory.ts, ts_shifted))
         self._ys = np.concatenate((trajectory.ys, self._ys))
         self._yds = np.concatenate((trajectory.yds, self._yds))
         self._ydds = np.concatenate((trajectory.ydds, self._ydds))
-- 
2.43.0


From 3e42d69e3067994b89adb02bf62ccceadcad0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:19 +0000
Subject: [PATCH 29/54] fix: CMA-ES weighting raised with fewer samples than
 its eliteness parameter

---
 dmpbbo/bbo/updaters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index d1ff0aa..a6c4ef7 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -249,7 +249,7 @@ def costs_to_weights(costs, weighting_method, eliteness):
             weights[indices[0:mu]] = 1.0 / mu
         else:
             # CMA-ES
-            for ii in range(mu):
+            for ii in range(min(mu, costs.size)):
                 weights[indices[ii]] = np.log(mu + 0.5) - np.log(ii + 1)
 
     else:
-- 
2.43.0


From d238d0fe34144f7e55f4d88dac349f822723f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:19 +0000
Subject: [PATCH 30/54] fix: limiting the diagonal of a full covariance matrix
 could make it indefinite

---
 dmpbbo/bbo/updaters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index a6c4ef7..f375176 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -193,6 +193,10 @@ class UpdaterCovarAdaptation(Updater):
                 if not is_scalar_max:
                     level_max = pow(self.diagonal_max[ii], 2)
                 if covar_new[ii, ii] > level_max:
+                    # Scale entire row/column, so that matrix remains positive semi-definite
+                    scale = np.sqrt(level_max / covar_new[ii, ii])
+                    covar_new[ii, :] *= scale
+                    covar_new[:, ii] *= scale
                     covar_new[ii, ii] = level_max
 
         # Set a minimum value for the diagonal to avoid pre-mature convergence
-- 
2.43.0


From fa9002e6172c2b3068e50e9b4ba4ea16a74ca6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:19 +0000
Subject: [PATCH 31/54] fix: sampling from a bounded distribution without
 bounds (the default) raised

---
 dmpbbo/bbo/DistributionGaussianBounded.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dmpbbo/bbo/DistributionGaussianBounded.py b/dmpbbo/bbo/DistributionGaussianBounded.py
index 59b451f..3a9dc16 100644
--- a/dmpbbo/bbo/DistributionGaussianBounded.py
+++ b/dmpbbo/bbo/DistributionGaussianBounded.py
@@ -43,5 +43,7 @@ class DistributionGaussianBounded(DistributionGaussian):
 
     def generate_samples(self, n_samples=1):
         samples = super().generate_samples(n_samples)
+        if self.lower_bound is None and self.upper_bound is None:
+            return samples
         clipped_samples = samples.clip(self.lower_bound, self.upper_bound)
         return clipped_samples
-- 
2.43.0


From bd636d05d1306af12d35890dc0ee1159e5973416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:19 +0000
Subject: [PATCH 32/54] fix: modifying an object asked from a session stored in
 a directory modified the session

---
 dmpbbo/bbo/LearningSession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index e04ad95..0d00281 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -390,7 +390,7 @@ class LearningSession:
 
             self._cache[basename] = obj
 
-            return obj
+            return copy.deepcopy(obj)
 
     def tell(self, obj, name, i_update=None, i_sample=None):
         """ Add an object to the database.
-- 
2.43.0


From 6b289ae84d45a554933ebe20f04c0642d4bbe04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:19 +0000
Subject: [PATCH 33/54] fix: update and sample numbers that are numpy integers
 were ignored, overwriting other entries

---
 dmpbbo/bbo/LearningSession.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 0d00281..8f53c6d 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -324,14 +324,14 @@ class LearningSession:
         @param i_sample:  The sample number to be prepended
         @return: The basename of a file.
         """
-        if isinstance(i_sample, int):
+        if isinstance(i_sample, (int, np.integer)):
             basename = f"{i_sample:03d}_{name}"  # e.g. 0 => "000_name"
         elif i_sample:
             basename = f"{i_sample}_{name}"  # e.g. "eval" => "eval_name"
         else:
             basename = name
 
-        if isinstance(i_update, int):
+        if isinstance(i_update, (int, np.integer)):
             # e.g. "update00023/000_name"
             basename = Path(f"update{i_update:05d}", basename)
 
-- 
2.43.0


From 63904c106b06453d8d67ae5dd32ae69882c86c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:19 +0000
Subject: [PATCH 34/54] fix: the number of updates was one too low after
 run_optimization, which dropped the last update from learning curves

---
 dmpbbo/bbo/LearningSession.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 8f53c6d..459d77e 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -22,7 +22,6 @@ import copy
 import inspect
 import os
 import warnings
-from glob import glob
 from pathlib import Path
 
 import jsonpickle
@@ -301,13 +300,11 @@ class LearningSession:
 
         @return: The number of updates that have already been performed.
         """
-        if not self._root_dir:
-            return self._last_update_added
-        else:
-            update_dirs = sorted(glob(str(Path(self._root_dir, "update")) + "[0-9]*"))
-            last_dir = update_dirs[-1]
-            update_str = Path(last_dir).name.replace("update", "")
-            return int(update_str)
+        # Weights are stored for each update that has been performed
+        n_updates = 0
+        while self.exists("weights", n_updates):
+            n_updates += 1
+        return n_updates
 
     @staticmethod
     def get_base_name(name, i_update=None, i_sample=None):
-- 
2.43.0


From c69bc6a9abcc5478ff4daa60f5002670cfd1b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:19 +0000
Subject: [PATCH 35/54] fix: learning curve of step-by-step optimization
 ignored the cost of the evaluation rollouts

---
 dmpbbo/bbo/LearningSession.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 459d77e..4a8f053 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -452,9 +452,11 @@ class LearningSession:
         @param i_update:  The update numbers
         @return: The costs for that update.
         """
-        has_eval = self.exists("cost", 0, "eval")
+        # Stored as "cost" by run_optimization, and as "costs" in step-by-step optimization
+        name = "cost" if self.exists("cost", 0, "eval") else "costs"
+        has_eval = self.exists(name, 0, "eval")
         if has_eval:
-            cost_eval = self.ask("cost", i_update, "eval")
+            cost_eval = self.ask(name, i_update, "eval")
             # Evaluation at the beginning of an update
             i_sample = i_update * self._n_samples_per_update
         else:
-- 
2.43.0


From c8ea6a29715e8e3faca3abc0cd87389ef242f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:19 +0000
Subject: [PATCH 36/54] fix: step-by-step optimization of one parameter raised
 when read from a directory

---
 dmpbbo/bbo_of_dmps/step_by_step_optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo_of_dmps/step_by_step_optimization.py b/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
index 646c7c6..b2409a2 100644
--- a/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
+++ b/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
@@ -126,7 +126,8 @@ def update_step(session, i_update, save_trajectory=False):
     # 3. Update parameters
     print("UPDATING DISTRIBUTION")
     distribution_prev = session.ask("distribution", i_update)
-    samples = session.ask("samples", i_update)
+    # Reshape, because dimensions of size 1 are lost when reading from file
+    samples = session.ask("samples", i_update).reshape(n_samples, -1)
     updater = session.ask("updater")
 
     distribution_new, weights = updater.update_distribution(
-- 
2.43.0


From 0e2b7377bf23298d71559e12cc595d332270951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:50:13 +0000
Subject: [PATCH 37/54] fix: eigen_json: conversion of json to vectors compiles
 with Eigen 3.4

---
 src/eigenutils/eigen_json.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/eigenutils/eigen_json.hpp b/src/eigenutils/eigen_json.hpp
index 9b7008e..12bec85 100644
--- a/src/eigenutils/eigen_json.hpp
+++ b/src/eigenutils/eigen_json.hpp
@@ -44,6 +44,23 @@ void to_json(nlohmann::json& j, const MatrixBase<Derived>& matrix);
 template <typename Derived>
 void from_json(const nlohmann::json& j, MatrixBase<Derived>& matrix);
 
+/** Parse a matrix from json.
+ * This overload is required for vectors with Eigen >= 3.4: they have begin() and
+ * end(), so nlohmann::json prefers its own conversion for containers to the one
+ * for MatrixBase above, and that does not compile.
+ * \param[in] j The json input
+ * \param[out] matrix The parsed matrix
+ */
+template <typename Scalar, int Rows, int Cols, int Options, int MaxRows,
+          int MaxCols>
+void from_json(const nlohmann::json& j,
+               Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& matrix)
+{
+  MatrixBase<Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>>& base =
+      matrix;
+  from_json(j, base);
+}
+
 template <typename Derived>
 void to_json(nlohmann::json& j, const MatrixBase<Derived>& matrix)
 {
-- 
2.43.0


From 68780231a77c32b3d6ded019957b8b3fb31f15f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:50:13 +0000
Subject: [PATCH 38/54] fix: C++ SigmoidSystem: changing the initial y state
 updates the carrying capacity

---
 src/dynamicalsystems/SigmoidSystem.cpp | 6 ++++++
 src/dynamicalsystems/SigmoidSystem.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 0cd2dfd..179f497 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -62,6 +62,12 @@ void SigmoidSystem::set_x_init(const VectorXd& x_init)
   Ks_ = SigmoidSystem::computeKs(x_init, max_rate_, inflection_point_time);
 }
 
+void SigmoidSystem::set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
+{
+  // For a 1st order system, y and x are the same
+  set_x_init(y_init);
+}
+
 VectorXd SigmoidSystem::computeKs(const VectorXd& N_0s, double r,
                                   double inflection_point_time_time)
 {
diff --git a/src/dynamicalsystems/SigmoidSystem.hpp b/src/dynamicalsystems/SigmoidSystem.hpp
index a084fce..b8537cd 100644
--- a/src/dynamicalsystems/SigmoidSystem.hpp
+++ b/src/dynamicalsystems/SigmoidSystem.hpp
@@ -63,6 +63,7 @@ class SigmoidSystem : public DynamicalSystem {
 
   void set_tau(double tau);
   void set_x_init(const Eigen::VectorXd& x_init);
+  void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init);
 
   /** Read an object from json.
    *  \param[in]  j   json input
-- 
2.43.0


From 36db273672906eab9c70da63ac97039b9cc5e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:50:13 +0000
Subject: [PATCH 39/54] fix: C++ SpringDamperSystem: closed-form solution uses
 the initial velocity z/tau

---
 src/dynamicalsystems/SpringDamperSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index b170029..dfb09ae 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -124,7 +124,7 @@ void SpringDamperSystem::analyticalSolution(const VectorXd& ts, MatrixXd& xs,
   // Eigen::replicate().
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
     double y0 = x_ini[i_dim] - y_attr_[i_dim];
-    double yd0 = x_ini[dim_y() + i_dim];
+    double yd0 = x_ini[dim_y() + i_dim] / tau();  // because z = tau*yd
 
     double A = y0;
     double B = yd0 + omega_0 * y0;
-- 
2.43.0


From 1bacac1fc865deb30d5e58cb59175c96dca6d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:59:07 +0000
Subject: [PATCH 40/54] fix: C++ FunctionApproximatorLWR: json keeps whether
 the kernels are asymmetric

---
 src/functionapproximators/FunctionApproximatorLWR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/functionapproximators/FunctionApproximatorLWR.cpp b/src/functionapproximators/FunctionApproximatorLWR.cpp
index f6d0618..e05082c 100644
--- a/src/functionapproximators/FunctionApproximatorLWR.cpp
+++ b/src/functionapproximators/FunctionApproximatorLWR.cpp
@@ -218,7 +218,10 @@ void from_json(const nlohmann::json& j, FunctionApproximatorLWR*& obj)
   MatrixXd widths = jm.at("widths");
   MatrixXd slopes = jm.at("slopes");
   MatrixXd offsets = jm.at("offsets");
-  obj = new FunctionApproximatorLWR(centers, widths, slopes, offsets);
+  // Optional, as the Python implementation does not have asymmetric kernels
+  bool asymmetric_kernels = jm.value("asymmetric_kernels", false);
+  obj = new FunctionApproximatorLWR(centers, widths, slopes, offsets,
+                                    asymmetric_kernels);
 }
 
 void FunctionApproximatorLWR::to_json_helper(nlohmann::json& j) const
@@ -227,6 +230,7 @@ void FunctionApproximatorLWR::to_json_helper(nlohmann::json& j) const
   j["_model_params"]["widths"] = widths_;
   j["_model_params"]["offsets"] = offsets_;
   j["_model_params"]["slopes"] = slopes_;
+  j["_model_params"]["asymmetric_kernels"] = asymmetric_kernels_;
   j["class"] = "FunctionApproximatorLWR";
 }
 
-- 
2.43.0


From b0aa613eac74227b303dae88dd3ba3029fc7db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:41 +0000
Subject: [PATCH 41/54] fix: C++ Dmp: constructors reserved only dim_y state
 variables, instead of those of all subsystems

---
 src/dmp/Dmp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 6a752e4..e4c5a63 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -104,7 +104,7 @@ Dmp::Dmp(int n_dims_dmp,
          double alpha_spring_damper, ExponentialSystem* goal_system,
          DynamicalSystem* phase_system, DynamicalSystem* gating_system,
          std::string scaling, Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       goal_system_(goal_system),
       phase_system_(phase_system),
@@ -120,7 +120,7 @@ Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -133,7 +133,7 @@ Dmp::Dmp(int n_dims_dmp,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -144,7 +144,7 @@ Dmp::Dmp(int n_dims_dmp,
 
 Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          double alpha_spring_damper, ExponentialSystem* goal_system)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_("NO_SCALING"),
       scaling_amplitudes_(VectorXd::Zero(0))
-- 
2.43.0


From e79838308ac76be708d535d0fcc5528e73268115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:41 +0000
Subject: [PATCH 42/54] fix: C++ Dmp: setting the initial state failed, and did
 not set that of the subsystems

---
 src/dmp/Dmp.cpp |  2 +-
 src/dmp/Dmp.hpp | 10 +---------
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index e4c5a63..02934ab 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -521,7 +521,7 @@ void Dmp::set_tau(double tau)
   gating_system_->set_tau(tau);
 }
 
-void Dmp::set_y_init(const Eigen::VectorXd& y_init)
+void Dmp::set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
 {
   assert(y_init.size() == dim_y());
   DynamicalSystem::set_y_init(y_init);
diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index 49a7838..e22792e 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -284,7 +284,7 @@ class Dmp : public DynamicalSystem {
    * We need to override DynamicalSystem::set_initial_state, because the DMP
    * must also change the initial state  of the goal system as well.
    */
-  virtual void set_y_init(const Eigen::VectorXd& y_init);
+  virtual void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init);
 
   /** Get the attractor state of the system.
    *  \param[in] y_attr Attractor state of the system.
@@ -350,14 +350,6 @@ class Dmp : public DynamicalSystem {
     y_init = x_init().segment(0, dim_y());
   }
 
-  /** Set the initial state of the dynamical system.
-   *  \param[in] y_init Initial state of the dynamical system.
-   */
-  inline void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
-  {
-    set_x_init(y_init);
-  }
-
   /** Read an object from json.
    *  \param[in]  j json input
    *  \param[out] obj The object read from json
-- 
2.43.0


From 698150f1ef916db569927f421df988d95d5d1757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:41 +0000
Subject: [PATCH 43/54] fix: C++ Dmp: default gating system had its inflection
 point at 0.9*tau^2 instead of 0.9*tau

---
 src/dmp/Dmp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 02934ab..91d75d1 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -175,7 +175,7 @@ void Dmp::initSubSystems(std::string dmp_type)
   } else if (dmp_type == "KULVICIUS_2012_JOINING" ||
              dmp_type == "COUNTDOWN_2013") {
     goal_system = new ExponentialSystem(tau(), y_init(), y_attr_, 15);
-    gating_system = new SigmoidSystem(tau(), one_1, -10, 0.9 * tau());
+    gating_system = new SigmoidSystem(tau(), one_1, -10, 0.9);
     bool count_down = (dmp_type == "COUNTDOWN_2013");
     phase_system = new TimeSystem(tau(), count_down);
   }
-- 
2.43.0


From f403a70e9fd8b49f511b4b79d8149d62c56ebd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:41 +0000
Subject: [PATCH 44/54] fix: C++ Dmp: analytical solution ignored the spring
 constant and mass

---
 src/dmp/Dmp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 91d75d1..eeb78ba 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -468,7 +468,9 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
 
   // Reset the dynamical system, and get the first state
   double damping = spring_system_->damping_coefficient();
-  SpringDamperSystem localspring_system_(tau(), y_init(), y_attr_, damping);
+  SpringDamperSystem localspring_system_(tau(), y_init(), y_attr_, damping,
+                                         spring_system_->spring_constant(),
+                                         spring_system_->mass());
 
   // Set first attractor state
   localspring_system_.set_y_attr(xs_goal.row(0));
-- 
2.43.0


From 950bc5288365d3f3955b921cc056871323e03a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:41 +0000
Subject: [PATCH 45/54] fix: C++ Dmp: a DMP without function approximators
 crashed when integrated

---
 src/dmp/Dmp.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index eeb78ba..002c4dd 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -306,7 +306,11 @@ void Dmp::differentialEquation(const Eigen::Ref<const Eigen::VectorXd>& x,
   gating_system_->differentialEquation(x.GATING, xd.GATING);
 
   // Compute output of the funciton approximators
-  for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+  // (without function approximators, the forcing term is zero)
+  fa_output_prealloc_.fill(0.0);
+  for (unsigned int i_dim = 0; i_dim < function_approximators_.size();
+       i_dim++) {
+    if (function_approximators_[i_dim] == NULL) continue;
     function_approximators_[i_dim]->predictRealTime(x.PHASE,
                                                     fa_output_one_prealloc_);
     fa_output_prealloc_(0, i_dim) = fa_output_one_prealloc_(0, 0);
@@ -419,7 +423,9 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
   fa_outputs.fill(0.0);
 
   MatrixXd fa_output_one_dim(n_time_steps, 1);
-  for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+  for (unsigned int i_dim = 0; i_dim < function_approximators_.size();
+       i_dim++) {
+    if (function_approximators_[i_dim] == NULL) continue;
     function_approximators_[i_dim]->predict(xs_phase, fa_output_one_dim);
     fa_outputs.col(i_dim) = fa_output_one_dim;
   }
-- 
2.43.0


From 95799defd878e4fcbba4de9c48368d14774f4108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:41 +0000
Subject: [PATCH 46/54] fix: C++ Dmp: json of a DMP without delayed goal system
 could not be read

---
 src/dmp/Dmp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 002c4dd..c264645 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -563,7 +563,9 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
 
   ExponentialSystem* goal_system;
   DynamicalSystem *phase_system, *gating_system;
-  goal_system = j.at("_goal_system").get<ExponentialSystem*>();
+  goal_system = NULL;
+  if (!j.at("_goal_system").is_null())
+    goal_system = j.at("_goal_system").get<ExponentialSystem*>();
   phase_system = j.at("_phase_system").get<DynamicalSystem*>();
   gating_system = j.at("_gating_system").get<DynamicalSystem*>();
 
-- 
2.43.0


From 5d904336388a714ed7ff2e419929aec228818577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:09:41 +0000
Subject: [PATCH 47/54] fix: C++ Dmp: spring constant and mass in json were
 ignored

---
 src/dmp/Dmp.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index c264645..e33e3f2 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -585,6 +585,13 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   obj = new Dmp(tau, y_init, y_attr, function_approximators,
                 alpha_spring_damper, goal_system, phase_system, gating_system,
                 forcing_term_scaling, scaling_amplitudes);
+
+  // The spring system need not be critically damped
+  const auto& jspring = j.at("_spring_system");
+  if (jspring.contains("spring_constant"))
+    obj->spring_system_->set_spring_constant(jspring.at("spring_constant"));
+  if (jspring.contains("mass"))
+    obj->spring_system_->set_mass(jspring.at("mass"));
 }
 
 void Dmp::to_json_helper(nlohmann::json& j) const
-- 
2.43.0


From 931058fe99dc5bd71179aa785524ec1a9f680d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:10:09 +0000
Subject: [PATCH 48/54] fix: C++ DynamicalSystem: json that was written could
 not be read

---
 src/dynamicalsystems/DynamicalSystem.cpp   | 1 +
 src/dynamicalsystems/ExponentialSystem.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/dynamicalsystems/DynamicalSystem.cpp b/src/dynamicalsystems/DynamicalSystem.cpp
index 258ec6b..3c6fcb5 100644
--- a/src/dynamicalsystems/DynamicalSystem.cpp
+++ b/src/dynamicalsystems/DynamicalSystem.cpp
@@ -175,6 +175,7 @@ void DynamicalSystem::to_json_base(nlohmann::json& j) const
   j["_dim_x"] = dim_x_;
   j["_dim_y"] = dim_y_;
   j["_tau"] = tau_;
+  j["_x_init"] = x_init_;
   j["_y_init"] = x_init_.segment(0, dim_y_);
   j["class"] = "DynamicalSystem";
 }
diff --git a/src/dynamicalsystems/ExponentialSystem.cpp b/src/dynamicalsystems/ExponentialSystem.cpp
index 39158a1..48aa377 100644
--- a/src/dynamicalsystems/ExponentialSystem.cpp
+++ b/src/dynamicalsystems/ExponentialSystem.cpp
@@ -102,6 +102,7 @@ void ExponentialSystem::to_json_helper(nlohmann::json& j) const
 {
   to_json_base(j);  // Get the json string from the base class
   j["alpha"] = alpha_;
+  j["_x_attr"] = x_attr_;
   j["_y_attr"] = x_attr_;
   j["class"] = "ExponentialSystem";
 }
-- 
2.43.0


From 136b53b10fef096028c4dadf00bc26e45ad208fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:10:09 +0000
Subject: [PATCH 49/54] fix: C++ Dmp: json that was written could not be read

---
 src/dmp/Dmp.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index e33e3f2..75f891f 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -572,12 +572,12 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   string forcing_term_scaling = j.at("_forcing_term_scaling");
   VectorXd scaling_amplitudes = j.at("_scaling_amplitudes");
 
-  int n_dims = y_attr.size();
   vector<FunctionApproximator*> function_approximators;
   const auto& jrow = j.at("_function_approximators");
   if (jrow.is_array()) {
-    for (int i_dim = 0; i_dim < n_dims; i_dim++) {
-      FunctionApproximator* fa = jrow.at(i_dim).get<FunctionApproximator*>();
+    for (const auto& jfa : jrow) {
+      FunctionApproximator* fa = NULL;
+      if (!jfa.is_null()) fa = jfa.get<FunctionApproximator*>();
       function_approximators.push_back(fa);
     }
   }
@@ -600,11 +600,22 @@ void Dmp::to_json_helper(nlohmann::json& j) const
 
   j["_spring_system"]["damping_coefficient"] =
       spring_system_->damping_coefficient();
-  j["_goal_system"] = goal_system_;
+  j["_spring_system"]["spring_constant"] = spring_system_->spring_constant();
+  j["_spring_system"]["mass"] = spring_system_->mass();
+  j["_y_attr"] = y_attr_;
+  j["_goal_system"] = nullptr;
+  if (goal_system_ != NULL) j["_goal_system"] = goal_system_;
   j["_phase_system"] = phase_system_;
   j["_gating_system"] = gating_system_;
   j["_forcing_term_scaling"] = forcing_term_scaling_;
-  j["_function_approximators"] = function_approximators_;
+  j["_scaling_amplitudes"] = scaling_amplitudes_;
+  j["_function_approximators"] = nlohmann::json::array();
+  for (FunctionApproximator* fa : function_approximators_) {
+    if (fa == NULL)
+      j["_function_approximators"].push_back(nullptr);
+    else
+      j["_function_approximators"].push_back(fa);
+  }
   j["class"] = "Dmp";
 }
 
-- 
2.43.0


From 610c6514703a253bc4985246ec58d8db2b0fbc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:48:39 +0000
Subject: [PATCH 50/54] fix: C++ Dmp: differential equation allocated memory in
 its real-time section

---
 src/dmp/Dmp.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index e22792e..ae6e1a6 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -346,8 +346,9 @@ class Dmp : public DynamicalSystem {
    */
   inline void get_y_init(Eigen::VectorXd& y_init) const
   {
-    // x = [y z etc], return only y part
-    y_init = x_init().segment(0, dim_y());
+    // x = [y z etc], return only y part (without copying x, which would allocate
+    // memory)
+    DynamicalSystem::get_y_init(y_init);
   }
 
   /** Read an object from json.
-- 
2.43.0


From cf9ea3549a8020690438cbd94ea9798bcd1590ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:58:26 +0000
Subject: [PATCH 51/54] fix: C++ saveMatrix: reported success although the
 matrix was not saved

---
 src/eigenutils/eigen_file_io.tpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index 5ecc4ab..382527a 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -93,9 +93,7 @@ inline bool saveMatrix(
   }
 
   filename = directory + "/" + filename;
-  saveMatrix(filename, matrix, overwrite);
-
-  return true;
+  return saveMatrix(filename, matrix, overwrite);
 }
 
 /** Save an Eigen matrix to an ASCII file.
-- 
2.43.0


From 69528c6407418d528f8f0e4009ca79e08a06ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:28 +0000
Subject: [PATCH 52/54] fix: TaskViapoint: cost of accelerations was averaged
 over the time after the goal only

---
 demos/python/bbo_of_dmps/TaskViapoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/python/bbo_of_dmps/TaskViapoint.py b/demos/python/bbo_of_dmps/TaskViapoint.py
index ccf1dff..1482b14 100644
--- a/demos/python/bbo_of_dmps/TaskViapoint.py
+++ b/demos/python/bbo_of_dmps/TaskViapoint.py
@@ -151,8 +151,8 @@ class TaskViapoint(Task):
         if self.goal_weight > 0.0 and self.goal is not None:
             after_goal_indices = ts >= self.goal_time
             ys_after_goal = ys[after_goal_indices, :]
-            n_time_steps = ys_after_goal.shape[0]
-            goal_repeat = np.repeat(np.atleast_2d(self.goal), n_time_steps, axis=0)
+            n_after_goal = ys_after_goal.shape[0]
+            goal_repeat = np.repeat(np.atleast_2d(self.goal), n_after_goal, axis=0)
             delay_cost_mean = np.mean(np.linalg.norm(ys_after_goal - goal_repeat, axis=1))
 
         costs = np.zeros(1 + 4)
-- 
2.43.0


From a449828dd5ddb5e5c78cd3b60836adb57d7a85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:28 +0000
Subject: [PATCH 53/54] fix: TaskSolverDmpArm2D: link lengths passed in were
 ignored, and the default failed

---
 demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py b/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py
index 11de431..6de6714 100644
--- a/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py
+++ b/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py
@@ -30,7 +30,7 @@ class TaskSolverDmpArm2D(TaskSolverDmp):
 
     def __init__(self, dmp, dt, integrate_dmp_beyond_tau_factor, link_lengths=None):
         super().__init__(dmp, dt, integrate_dmp_beyond_tau_factor)
-        if link_lengths is not None or len(link_lengths)>0:
+        if link_lengths is None or len(link_lengths) == 0:
             n_dofs = dmp.dim_dmp()
             # Every link has same length, and they sum to 1.0
             link_lengths = np.full(n_dofs, 1.0 / n_dofs)
-- 
2.43.0


From 0ac4a2ddaeacb236bac03b002a80d59b6c0c25b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:28 +0000
Subject: [PATCH 54/54] fix: ball simulation: gravity was written into the
 recorded acceleration of the hand

---
 demos/robot/TaskThrowBall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/robot/TaskThrowBall.py b/demos/robot/TaskThrowBall.py
index c4416fe..cf172bd 100644
--- a/demos/robot/TaskThrowBall.py
+++ b/demos/robot/TaskThrowBall.py
@@ -138,7 +138,7 @@ def run_python_simulation(dmp, y_floor=-0.3):
             # If the ball is in your hand, it moves along with your hand
             ys_ball[ii, :] = ys[ii, :]
             yd_ball = yds[ii, :]
-            ydd_ball = ydds[ii, :]  # noqa
+            ydd_ball = ydds[ii, :].copy()  # noqa
 
             if ts[ii] > 0.6:
                 # Release the ball to throw it!
-- 
2.43.0

