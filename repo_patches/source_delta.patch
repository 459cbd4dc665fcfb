From 6120c6d5571029b5b59a56a1e7f58f07e0f5c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 01/44] fix: scale the Armijo bound of LineSearchGD by the
 trial step size

The documented rule is f(x+alpha*p) <= f(x) + c1*alpha*p'grad. The bound was
kept at the full step for every trial, so a short step along a non-descent
(momentum) direction was accepted although it violates the rule, and a short
descent step was rejected although it satisfies it.
---
 neural_network_lyapunov/line_search_gd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/line_search_gd.py b/neural_network_lyapunov/line_search_gd.py
index 2b92b80..0b1df16 100644
--- a/neural_network_lyapunov/line_search_gd.py
+++ b/neural_network_lyapunov/line_search_gd.py
@@ -118,7 +118,7 @@ class LineSearchGD(Optimizer):
         while alpha > min_step_size_decrease:
             loss = self.directional_evaluate(closure, p,
                                              (alpha - alpha_prev) * t, d_p)
-            if loss <= loss0 + t * increment and \
+            if loss <= loss0 + alpha * t * increment and \
                     loss <= loss0 - min_improvement:
                 return loss
             alpha_prev = alpha
-- 
2.43.0


From 7a05d909c22e7d31d75170bedf9451733b9b421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 02/44] fix: use each parameter group's own learning rate in
 LineSearchGD

The step used the learning rate of the last group for the parameters of every
group.
---
 neural_network_lyapunov/line_search_gd.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/line_search_gd.py b/neural_network_lyapunov/line_search_gd.py
index 0b1df16..98fb02e 100644
--- a/neural_network_lyapunov/line_search_gd.py
+++ b/neural_network_lyapunov/line_search_gd.py
@@ -99,7 +99,7 @@ class LineSearchGD(Optimizer):
 
     def directional_evaluate(self, closure, p, t, d_p):
         for i in range(len(p)):
-            self.add_grad(p[i], t, d_p[i])
+            self.add_grad(p[i], t[i], d_p[i])
         loss = closure()
         return loss
 
@@ -111,14 +111,15 @@ class LineSearchGD(Optimizer):
             min_improvement = group['min_improvement']
 
         increment = loss_minimal_decrement * torch.sum(
-            torch.stack([torch.sum(p[i].grad * d_p[i])
+            torch.stack([t[i] * torch.sum(p[i].grad * d_p[i])
                          for i in range(len(p))]))
         alpha_prev = 0
         alpha = 1
         while alpha > min_step_size_decrease:
             loss = self.directional_evaluate(closure, p,
-                                             (alpha - alpha_prev) * t, d_p)
-            if loss <= loss0 + alpha * t * increment and \
+                                             [(alpha - alpha_prev) * ti
+                                              for ti in t], d_p)
+            if loss <= loss0 + alpha * increment and \
                     loss <= loss0 - min_improvement:
                 return loss
             alpha_prev = alpha
@@ -135,6 +136,7 @@ class LineSearchGD(Optimizer):
         """
         assert (isinstance(loss0, float))
         p_all = []
+        step_size_all = []
         dp_all = []
         for group in self.param_groups:
             weight_decay = group['weight_decay']
@@ -162,5 +164,6 @@ class LineSearchGD(Optimizer):
                     else:
                         d_p = buf
                 p_all.append(p)
+                step_size_all.append(lr)
                 dp_all.append(-d_p.clone())
-        return self.line_search(loss0, closure, p_all, lr, dp_all)
+        return self.line_search(loss0, closure, p_all, step_size_all, dp_all)
-- 
2.43.0


From a4332c97ad6906bb02dd85986e077c7a36cac49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 03/44] fix: SearchRwithSPDOptions.extract_params read
 attributes that do not exist

Saving a Lyapunov model with this option raised AttributeError.
---
 neural_network_lyapunov/r_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index fcb3d7c..a2f7ff4 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -111,8 +111,8 @@ class SearchRwithSPDOptions(ROptions):
     def extract_params(self):
         return {
             "R_size": self.R_size,
-            "R_epsilon": self.R_epsilon,
-            "R_variables": self.R_variables()
+            "R_epsilon": self.epsilon,
+            "R_variables": self.variables()
         }
 
 
-- 
2.43.0


From 9eda7c4ebc26e65e4b3701b04bd74becea0c4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 04/44] fix: size the continuity constraint by the number of
 common vertices

The offset was replicated once per state dimension instead of once per common
vertex, so any face whose vertex count differs from the state dimension (for
example every face in 3D) raised an error.
---
 neural_network_lyapunov/simple_pwl_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/simple_pwl_lyapunov.py b/neural_network_lyapunov/simple_pwl_lyapunov.py
index f38258d..239cf29 100644
--- a/neural_network_lyapunov/simple_pwl_lyapunov.py
+++ b/neural_network_lyapunov/simple_pwl_lyapunov.py
@@ -147,7 +147,7 @@ class SimplePWLLyapunov:
         self.constraints.append(
             common_vertices @ (self.c[:, mode_i] - self.c[:, mode_j]) +
             (self.d[mode_i] - self.d[mode_j]) *
-            np.ones(common_vertices.shape[1]) == 0)
+            np.ones(common_vertices.shape[0]) == 0)
 
     def solve(self, weight):
         """
-- 
2.43.0


From d5645f4fea41d5ccf2b0686e69413ae6bd52a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 05/44] fix: read every joint's state in
 PybulletSampleGenerator

getJointStates returns one (position, velocity, forces, torque) tuple per
joint; slicing the first tuple is only right for a single joint. For robots
with several joints the next state mixed one joint's velocity into the
positions, or failed.
---
 neural_network_lyapunov/pybullet_data_generation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 6b1be58..0c68386 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -225,8 +225,8 @@ class PybulletSampleGenerator:
             pb.stepSimulation()
         if self.joint_space:
             state = pb.getJointStates(self.robot_id, list(range(len(q0))))
-            q1 = state[0][:len(q0)]
-            v1 = state[0][len(q0):len(q0) + len(v0)]
+            q1 = [joint_state[0] for joint_state in state]
+            v1 = [joint_state[1] for joint_state in state]
             q1 = torch.tensor(q1, dtype=self.dtype)
             v1 = torch.tensor(v1, dtype=self.dtype)
             x1 = torch.cat((q1, v1))
-- 
2.43.0


From 1694cd14c95d2c8fe162aac11ec6d7ac15d6da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 06/44] fix: sign of the velocity cross term in the pole
 dynamics

---
 neural_network_lyapunov/examples/pole/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/examples/pole/pole.py b/neural_network_lyapunov/examples/pole/pole.py
index 7c07dbe..79c19a7 100644
--- a/neural_network_lyapunov/examples/pole/pole.py
+++ b/neural_network_lyapunov/examples/pole/pole.py
@@ -61,7 +61,7 @@ class Pole:
                 0, 0,
                 (self.m_ee + self.m_sphere) * self.gravity - self.m_sphere *
                 (xd_AB**2 * (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                 (self.length**2 - x_AB**2) / z_AB**3 -
+                 (self.length**2 - x_AB**2) / z_AB**3 +
                  2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3),
                 -self.m_sphere * self.gravity * x_AB / z_AB +
                 self.m_sphere * x_AB *
@@ -97,7 +97,7 @@ class Pole:
                     self.m_ee) * self.gravity - self.m_sphere * (
                         xd_AB**2 *
                         (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                        (self.length**2 - x_AB**2) / z_AB**3 -
+                        (self.length**2 - x_AB**2) / z_AB**3 +
                         2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3)
             C[3] = -self.m_sphere * self.gravity * x_AB / z_AB + \
                 self.m_sphere * x_AB * (
-- 
2.43.0


From 698e633d82c40f5e7de1efa43eda8abdd6ec0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 07/44] fix: AccelerationCar.dynamics concatenated
 zero-dimensional tensors

---
 neural_network_lyapunov/examples/car/acceleration_car.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index 0e3fd64..cfe5f69 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -30,7 +30,7 @@ class AccelerationCar:
             pos_dot = np.array([np.cos(theta) * vel, np.sin(theta) * vel])
             return np.array([pos_dot[0], pos_dot[1], u[0], u[1]])
         elif isinstance(x, torch.Tensor):
-            return torch.cat(
+            return torch.stack(
                 (torch.cos(theta) * vel, torch.sin(theta) * vel, u[0], u[1]))
 
     def next_pose(self, x, u, dt):
-- 
2.43.0


From df48f67940f9d20b442dcd43cc8fcb48c0a93b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 08/44] fix: use the second operand's binary count when
 stacking binary bounds

---
 neural_network_lyapunov/gurobi_torch_mip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 038fc3e..5a1e30c 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -341,7 +341,7 @@ def concatenate_mixed_integer_constraints(
         ret.binary_up = take_minimum(cnstr1.binary_up, cnstr2.binary_up)
     else:
         num_binary1 = cnstr1.num_binary()
-        num_binary2 = cnstr1.num_binary()
+        num_binary2 = cnstr2.num_binary()
         ret.binary_lo = stack_bounds(cnstr1.binary_lo, cnstr2.binary_lo,
                                      num_binary1, num_binary2, False)
         ret.binary_up = stack_bounds(cnstr1.binary_up, cnstr2.binary_up,
-- 
2.43.0


From d36618a308580aa15bb3248398e22f7d70c76f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 09/44] fix: transform_input must not modify tensors shared
 with its creator

---
 neural_network_lyapunov/gurobi_torch_mip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 5a1e30c..0ad20e2 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -137,14 +137,14 @@ class MixedIntegerConstraintsReturn:
             Aout_input * b + Cout.
         """
         if self.Ain_input is not None:
-            self.rhs_in -= self.Ain_input @ b
+            self.rhs_in = self.rhs_in - self.Ain_input @ b
             self.Ain_input = self.Ain_input @ A
         if self.Aeq_input is not None:
-            self.rhs_eq -= self.Aeq_input @ b
+            self.rhs_eq = self.rhs_eq - self.Aeq_input @ b
             self.Aeq_input = self.Aeq_input @ A
         if self.Aout_input is not None:
             if self.Cout is not None:
-                self.Cout += self.Aout_input @ b
+                self.Cout = self.Cout + self.Aout_input @ b
             else:
                 self.Cout = self.Aout_input @ b
             self.Aout_input = self.Aout_input @ A
-- 
2.43.0


From 1fd109ddab743c96774da837382ab7ffd63c8157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 10/44] fix: transform_input really rejects input bounds, which
 it cannot transform

---
 neural_network_lyapunov/gurobi_torch_mip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 0ad20e2..4b8edc0 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -136,6 +136,9 @@ class MixedIntegerConstraintsReturn:
         Aout_input * A * x + Aout_slack * s + Aout_binary * binary +
             Aout_input * b + Cout.
         """
+        if self.input_lo is not None or self.input_up is not None:
+            raise Exception("transform_input(): cannot handle non-empty " +
+                            "input_lo or input_up")
         if self.Ain_input is not None:
             self.rhs_in = self.rhs_in - self.Ain_input @ b
             self.Ain_input = self.Ain_input @ A
@@ -148,9 +151,6 @@ class MixedIntegerConstraintsReturn:
             else:
                 self.Cout = self.Aout_input @ b
             self.Aout_input = self.Aout_input @ A
-        if self.input_lo is not None or self.input_up is not None:
-            assert ("transform_input(): cannot handle non-empty input_lo or " +
-                    "input_up")
 
 
 def concatenate_mixed_integer_constraints(
-- 
2.43.0


From fd8ade59f11c437a98a89d33ab30c25282d78c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 11/44] fix: create slack and binary variables that occur only
 in the output map

---
 neural_network_lyapunov/gurobi_torch_mip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 4b8edc0..a06cc7c 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -736,6 +736,8 @@ class GurobiTorchMIP:
             slack_size = mip_cnstr_return.Ain_slack.shape[1]
         elif mip_cnstr_return.Aeq_slack is not None:
             slack_size = mip_cnstr_return.Aeq_slack.shape[1]
+        elif mip_cnstr_return.Aout_slack is not None:
+            slack_size = mip_cnstr_return.Aout_slack.shape[1]
         elif mip_cnstr_return.slack_lo is not None:
             slack_size = mip_cnstr_return.slack_lo.numel()
         elif mip_cnstr_return.slack_up is not None:
@@ -756,6 +758,8 @@ class GurobiTorchMIP:
             binary_size = mip_cnstr_return.Ain_binary.shape[1]
         elif mip_cnstr_return.Aeq_binary is not None:
             binary_size = mip_cnstr_return.Aeq_binary.shape[1]
+        elif mip_cnstr_return.Aout_binary is not None:
+            binary_size = mip_cnstr_return.Aout_binary.shape[1]
         elif mip_cnstr_return.binary_lo is not None:
             binary_size = mip_cnstr_return.binary_lo.numel()
         elif mip_cnstr_return.binary_up is not None:
-- 
2.43.0


From 6e7a18390bf4a2c8818bc211eb1e60472d8df2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 12/44] fix: KKT system of the MIQP objective (cross term with
 the binaries, non-symmetric Q)

---
 neural_network_lyapunov/gurobi_torch_mip.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index a06cc7c..df36648 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1309,17 +1309,17 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         If we fix the binary variable ζ, and take out the active linear
         constraints as A_act * r = b_act, then the optimal solution and cost of
         the QP can be computed from the KKT condition
-        [2*Qᵣ, A_actᵀ] * [r] = [ -cᵣ ]
-        [ A_act,   0 ]   [λ]   [b_act]
+        [Qᵣ+Qᵣᵀ, A_actᵀ] * [r] = [ -cᵣ-Q_rzeta*ζ ]
+        [ A_act,     0 ]   [λ]   [     b_act     ]
         where λ is the dual variable. We could compare the pair of primal/dual
         variable (r, λ) as
-        [r] = [2*Qᵣ, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,   0 ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ, A_actᵀ]⁻¹ * [ -cᵣ-Q_rzeta*ζ ]
+        [λ]   [ A_act,     0 ]     [     b_act     ]
         since the matrix is not invertible (it is psd but not positive
         definite), so we add a small identity matrix to make sure it is
         invertible
-        [r] = [2*Qᵣ + εI, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,       εI ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ + εI, A_actᵀ]⁻¹ * [ -cᵣ-Q_rzeta*ζ ]
+        [λ]   [ A_act,         εI ]     [     b_act     ]
         We can then compute the optimal cost
         rᵀQᵣr + ζᵀ*Q_zeta*ζ + rᵀ*Q_rzeta*ζ+cᵣᵀr+c_zetaᵀζ + c_constant as a
         function of the MIQP data.
@@ -1334,13 +1334,15 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         M = torch.zeros((len(self.r) + len(b_act), len(self.r) + len(b_act)),
                         dtype=self.dtype)
         M[:len(self.r), :len(self.r)] =\
-            2 * self.Q_r + penalty * torch.eye(len(self.r), dtype=self.dtype)
+            self.Q_r + self.Q_r.T +\
+            penalty * torch.eye(len(self.r), dtype=self.dtype)
         M[:len(self.r), len(self.r):] = A_act.T
         M[len(self.r):, :len(self.r)] = A_act
         M[len(self.r):, len(self.r):] =\
             penalty * torch.eye(len(b_act), dtype=self.dtype)
 
-        primal_dual = torch.inverse(M) @ torch.cat((-self.c_r, b_act), axis=0)
+        primal_dual = torch.inverse(M) @ torch.cat(
+            (-self.c_r - self.Q_rzeta @ zeta_sol, b_act), axis=0)
         r = primal_dual[:len(self.r)]
         return r @ (self.Q_r @ r) + zeta_sol @ (self.Q_zeta @ zeta_sol) +\
             r @ (self.Q_rzeta @ zeta_sol) + self.c_r @ r +\
-- 
2.43.0


From 0fac97b757af88e6d66c31d6e2685e060397c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 13/44] fix: max_as_mixed_integer_constraint with exactly one
 variable that cannot be maximal

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index da34766..208aff1 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -104,7 +104,7 @@ def max_as_mixed_integer_constraint(
     non_maximal_idx = torch.nonzero(
         torch.any(x_up.unsqueeze(1).repeat(1, nx) -
                   x_lo.unsqueeze(1).T.repeat(nx, 1) < 0,
-                  dim=1)).squeeze().tolist()
+                  dim=1)).reshape((-1, )).tolist()
     if (len(non_maximal_idx) > 0):
         Aeq_binary_non_maximal = torch.zeros((len(non_maximal_idx), nx),
                                              dtype=dtype)
-- 
2.43.0


From c06d730f2139e561f07cd1d572c951ad0b524e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 14/44] fix: misspelt slack block of the absolute value
 constraint at a zero lower bound

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 208aff1..513e52e 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -289,7 +289,7 @@ def absolute_value_as_mixed_integer_constraint(
         # α[0] = 0
         # α[1] + α[2] = 1
         ret.Ain_input = torch.tensor([[-1], [1], [1]], dtype=dtype)
-        ret.Ain_salck = torch.tensor([[0], [0], [1]], dtype=dtype)
+        ret.Ain_slack = torch.tensor([[0], [0], [1]], dtype=dtype)
         ret.Ain_binary = torch.zeros((3, 3), dtype=dtype)
         ret.Ain_binary[2, 2] = -2 * x_up
         ret.rhs_in = torch.stack((-x_lo, x_up, torch.tensor(0, dtype=dtype)))
-- 
2.43.0


From 0375587033c127b5d685ff2f6d97437fd087782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 15/44] Revert "fix: sign of the velocity cross term in the
 pole dynamics"

This reverts commit 1694cd14c95d2c8fe162aac11ec6d7ac15d6da0d.
---
 neural_network_lyapunov/examples/pole/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/examples/pole/pole.py b/neural_network_lyapunov/examples/pole/pole.py
index 79c19a7..7c07dbe 100644
--- a/neural_network_lyapunov/examples/pole/pole.py
+++ b/neural_network_lyapunov/examples/pole/pole.py
@@ -61,7 +61,7 @@ class Pole:
                 0, 0,
                 (self.m_ee + self.m_sphere) * self.gravity - self.m_sphere *
                 (xd_AB**2 * (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                 (self.length**2 - x_AB**2) / z_AB**3 +
+                 (self.length**2 - x_AB**2) / z_AB**3 -
                  2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3),
                 -self.m_sphere * self.gravity * x_AB / z_AB +
                 self.m_sphere * x_AB *
@@ -97,7 +97,7 @@ class Pole:
                     self.m_ee) * self.gravity - self.m_sphere * (
                         xd_AB**2 *
                         (self.length**2 - y_AB**2) / z_AB**3 + yd_AB**2 *
-                        (self.length**2 - x_AB**2) / z_AB**3 +
+                        (self.length**2 - x_AB**2) / z_AB**3 -
                         2 * x_AB * y_AB * xd_AB * yd_AB / z_AB**3)
             C[3] = -self.m_sphere * self.gravity * x_AB / z_AB + \
                 self.m_sphere * x_AB * (
-- 
2.43.0


From 1880e26d1423ea7e25f8a47d69c18cac684d2b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 16/44] Revert "fix: AccelerationCar.dynamics concatenated
 zero-dimensional tensors"

This reverts commit 698e633d82c40f5e7de1efa43eda8abdd6ec0fc0.
---
 neural_network_lyapunov/examples/car/acceleration_car.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index cfe5f69..0e3fd64 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -30,7 +30,7 @@ class AccelerationCar:
             pos_dot = np.array([np.cos(theta) * vel, np.sin(theta) * vel])
             return np.array([pos_dot[0], pos_dot[1], u[0], u[1]])
         elif isinstance(x, torch.Tensor):
-            return torch.stack(
+            return torch.cat(
                 (torch.cos(theta) * vel, torch.sin(theta) * vel, u[0], u[1]))
 
     def next_pose(self, x, u, dt):
-- 
2.43.0


From 50410e47c4677886787683620f53f968815d0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 17/44] fix: Lyapunov programs of a network with a single
 (leaky) ReLU unit

---
 neural_network_lyapunov/lyapunov.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index e4b480f..70f2b3f 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -86,7 +86,7 @@ class LyapunovHybridLinearSystem:
         relu_z, relu_beta = milp.add_mixed_integer_linear_constraints(
             mip_constr_return, x, None, slack_name, binary_var_name,
             "milp_relu_ineq", "milp_relu_eq", "", binary_var_type)
-        return (relu_z, relu_beta, mip_constr_return.Aout_slack.squeeze(),
+        return (relu_z, relu_beta, mip_constr_return.Aout_slack.reshape((-1,)),
                 mip_constr_return.Cout.squeeze(), mip_constr_return)
 
     def add_state_error_l1_constraint(self,
@@ -213,7 +213,7 @@ class LyapunovHybridLinearSystem:
         # = a_out * z + b_out - ϕ(x*) + λ * s
         relu_at_equilibrium = self.lyapunov_relu.forward(x_equilibrium)
         V_coeff = [
-            a_out.squeeze(0), V_lambda * torch.ones(
+            a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=self.system.dtype)
         ]
         V_vars = [z, s]
@@ -294,7 +294,7 @@ class LyapunovHybridLinearSystem:
         # Now set the objective as -ϕ(x) + ϕ(x*) + (ε-λ)*|R(x−x*)|₁
         # = -a_out * z - b_out +  ϕ(x*) + (ε-λ) * s
         milp.setObjective([
-            -a_out.squeeze(), (V_epsilon - V_lambda) * torch.ones(
+            -a_out, (V_epsilon - V_lambda) * torch.ones(
                 (len(s), ), dtype=dtype)
         ], [z, s],
                           constant=-b_out + relu_at_equilibrium.squeeze(),
@@ -473,7 +473,7 @@ class LyapunovHybridLinearSystem:
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
@@ -1252,7 +1252,7 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
-- 
2.43.0


From 08183edd531745d5207baf833e074ce2ccc10270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 18/44] fix: l1_gradient ignored zero_tol for a single nearly
 zero entry

---
 neural_network_lyapunov/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 513e52e..858ba15 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1437,20 +1437,20 @@ def l1_gradient(x: torch.Tensor,
 
     if not torch.any(torch.abs(x) <= zero_tol):
         return torch.sign(x).reshape((1, -1))
-    elif torch.sum(torch.abs(x) < zero_tol) == 1:
+    elif torch.sum(torch.abs(x) <= zero_tol) == 1:
         s = torch.sign(x)
         s_plus = s.clone()
-        s_plus[torch.abs(s_plus) <= zero_tol] = 1
+        s_plus[torch.abs(x) <= zero_tol] = 1
         s_minus = s.clone()
-        s_minus[torch.abs(s_minus) <= zero_tol] = -1
+        s_minus[torch.abs(x) <= zero_tol] = -1
         if subgradient_samples is None:
             return torch.vstack((s_plus, s_minus))
         else:
             s_list = [s_plus, s_minus]
             for i in range(subgradient_samples.size):
                 s_subgradient = s.clone()
-                s_subgradient[torch.abs(s_subgradient) <=
-                              zero_tol] = subgradient_samples[i]
+                s_subgradient[
+                    torch.abs(x) <= zero_tol] = subgradient_samples[i]
                 s_list.append(s_subgradient)
             return torch.vstack(s_list)
     else:
-- 
2.43.0


From b079a8ddfcfb2e1ad468a75938467379107616e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 19/44] fix: project_gradient divided by zero when a loss has
 zero gradient

---
 neural_network_lyapunov/train_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_utils.py b/neural_network_lyapunov/train_utils.py
index 9a54b5b..c7fbaae 100644
--- a/neural_network_lyapunov/train_utils.py
+++ b/neural_network_lyapunov/train_utils.py
@@ -53,7 +53,7 @@ def project_gradient(network, loss1, loss2, mode, retain_graph=False):
     loss2.backward(retain_graph=retain_graph)
     n2 = torch.cat([p.grad.reshape((-1, )) for p in network.parameters()])
     with torch.no_grad():
-        if n1 @ n2 > 0:
+        if n1 @ n2 >= 0:
             grad = n1 + n2
             need_projection = False
         else:
-- 
2.43.0


From 2323d7e324ad6ffd7301de478acaad4f983f93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 20/44] fix: linear_program_cost indexed the active rows with
 the nonzero tuple

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 858ba15..7834fb7 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -888,7 +888,7 @@ def linear_program_cost(c, d, A_in, b_in, A_eq, b_eq):
     b_act = torch.empty((num_act, ), dtype=torch.float64)
     A_act[:num_eq, :] = A_eq
     b_act[:num_eq] = b_eq
-    active_in_indices = np.nonzero(active_in_flag)
+    active_in_indices = np.nonzero(active_in_flag)[0]
     for i in range(num_act - num_eq):
         A_act[i + num_eq] = A_in[active_in_indices[i]]
         b_act[i + num_eq] = b_in[active_in_indices[i]]
-- 
2.43.0


From eba3cce76386eb34e05ba7b44cab64069ef3575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 21/44] fix: update_relu_params must not alias the given
 parameter vector

---
 neural_network_lyapunov/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 7834fb7..76a4dcb 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1004,13 +1004,13 @@ def update_relu_params(relu, params: torch.Tensor):
         if isinstance(layer, torch.nn.Linear):
             layer.weight.data = params[params_count:params_count +
                                        layer.in_features *
-                                       layer.out_features].reshape(
+                                       layer.out_features].clone().reshape(
                                            (layer.out_features,
                                             layer.in_features))
             params_count += layer.in_features * layer.out_features
             if layer.bias is not None:
                 layer.bias.data = params[params_count:params_count +
-                                         layer.out_features]
+                                         layer.out_features].clone()
                 params_count += layer.out_features
 
 
-- 
2.43.0


From 50c15a9fa4251ba5e1c69243dfb120bd873369af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 22/44] fix: uniform_sample_in_box only worked for float64
 bounds

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 76a4dcb..91e6e54 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1330,7 +1330,7 @@ def uniform_sample_in_box(lo: torch.Tensor, hi: torch.Tensor,
     """
     x_dim = lo.numel()
     assert (hi.shape == (x_dim, ))
-    samples = torch.rand(num_samples, x_dim, dtype=torch.float64)
+    samples = torch.rand(num_samples, x_dim, dtype=lo.dtype)
     samples = samples @ torch.diag(hi - lo)
     samples += torch.reshape(lo, (1, x_dim))
     return samples
-- 
2.43.0


From 28fe70d87ebc9df10cc1067aa23311a503d901d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 23/44] fix: uniform_sample_on_box_boundary face index out of
 range at -1

---
 neural_network_lyapunov/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 91e6e54..dce6507 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1345,8 +1345,8 @@ def uniform_sample_on_box_boundary(lo: torch.Tensor, hi: torch.Tensor,
     x_dim = lo.numel()
     boundary_face_rand = torch.rand((num_samples, )) * 2 - 1
     for i in range(num_samples):
-        boundary_face_index = int(
-            (torch.abs(boundary_face_rand[i]) * x_dim).item())
+        boundary_face_index = min(
+            int((torch.abs(boundary_face_rand[i]) * x_dim).item()), x_dim - 1)
         samples_in_box[i, boundary_face_index] = lo[
             boundary_face_index] if boundary_face_rand[i] < 0 else hi[
                 boundary_face_index]
-- 
2.43.0


From a017daddb6233edce24bba382dd6b06dcf30d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 24/44] fix: restoring the training parameters detached R from
 its optimizer

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 788c9af..d9ab458 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1112,7 +1112,9 @@ class Trainer:
         params["lyap_relu_params"] = copy.deepcopy(
             self.lyapunov_hybrid_system.lyapunov_relu.state_dict())
         if not self.R_options.fixed_R:
-            params["R_params"] = self.R_options._variables.clone()
+            params["R_params"] = [
+                v.detach().clone() for v in self.R_options.variables()
+            ]
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             params["controller_params"] = copy.deepcopy(
@@ -1127,7 +1129,12 @@ class Trainer:
         self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
             params["lyap_relu_params"])
         if not self.R_options.fixed_R:
-            self.R_options._variables = params["R_params"].clone()
+            # Copy the values, such that R_options still owns the leaf tensors
+            # that the optimizer updates.
+            with torch.no_grad():
+                for v, v_saved in zip(self.R_options.variables(),
+                                      params["R_params"]):
+                    v.copy_(v_saved)
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             self.lyapunov_hybrid_system.system.controller_network.\
-- 
2.43.0


From 0ed6bedda519002342ba6d90a49ad24545032ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 25/44] fix: number of repetitions of exactly two adversarial
 clusters

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index d9ab458..539ecc2 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1483,7 +1483,7 @@ def _cluster_adversarial_states(adversarial_states, cluster_radius):
             1)[states_distance_squared > cluster_radius**2] + 1
         repeatition = new_adversarial_state_index[1:] - \
             new_adversarial_state_index[:-1]
-        if repeatition.shape == (0, ):
+        if new_adversarial_state_index.shape == (0, ):
             repeatition = torch.tensor([adversarial_states.shape[0]])
         else:
             repeatition = torch.cat(
-- 
2.43.0


From 45cfa59814dcd003742e2379723339db1d4224bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 26/44] fix: train_lyapunov_on_samples restored the best
 networks with the last R

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 539ecc2..f260d06 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1064,20 +1064,10 @@ class Trainer:
                   f"{test_loss.item()}")
             if test_loss.item() < best_loss:
                 best_loss = test_loss.item()
-                best_lyapunov_relu = copy.deepcopy(
-                    self.lyapunov_hybrid_system.lyapunov_relu)
-                if isinstance(self.lyapunov_hybrid_system.system,
-                              feedback_system.FeedbackSystem):
-                    best_controller_relu = copy.deepcopy(
-                        self.lyapunov_hybrid_system.system.controller_network)
+                best_training_params = self._get_current_training_params()
 
         print(f"best loss {best_loss}")
-        self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
-            best_lyapunov_relu.state_dict())
-        if isinstance(self.lyapunov_hybrid_system.system,
-                      feedback_system.FeedbackSystem):
-            self.lyapunov_hybrid_system.system.controller_network.\
-                load_state_dict(best_controller_relu.state_dict())
+        self._set_training_params(best_training_params)
 
     class AdversarialTrainingOptions:
         def __init__(self):
-- 
2.43.0


From 9efbc571ed3be54e309a4c5f4397339683c94f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 27/44] fix: region of attraction missed successors that leave
 the box in several coordinates

---
 neural_network_lyapunov/lyapunov.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 70f2b3f..a162761 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -1178,9 +1178,9 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # x_lo_larger <= x <= x_up_larger.
         # This region could be written as the union of boxes
         # box i: x_up(i) <= x(i) <= x_up_larger(i)
-        #        x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #        x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # box x_dim + i: x_lo_larger(i) <= x(i) <= x_lo(i)
-        #                       x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #        x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # If we denote the bounds for the i'th box as
         # x_box_lo_i <= x <= x_box_up_i
         # We need to introduce 2 * x_dim binary variables ζ to determine in
@@ -1204,14 +1204,11 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
                                       lb=-gurobipy.GRB.INFINITY,
                                       vtype=gurobipy.GRB.CONTINUOUS,
                                       name=f"t_slack[{i}]")
-            x_box_lo_i = torch.from_numpy(self.system.x_lo_all).clone()
-            x_box_up_i = torch.from_numpy(self.system.x_up_all).clone()
+            x_box_lo_i = torch.as_tensor(x_lo_larger, dtype=dtype).clone()
+            x_box_up_i = torch.as_tensor(x_up_larger, dtype=dtype).clone()
             if i < self.system.x_dim:
                 x_box_lo_i[i] = self.system.x_up_all[i]
-                x_box_up_i[i] = x_up_larger[i]
             else:
-                x_box_lo_i[i - self.system.x_dim] = \
-                    x_lo_larger[i-self.system.x_dim]
                 x_box_up_i[i-self.system.x_dim] = \
                     self.system.x_lo_all[i-self.system.x_dim]
             # Now add the constraint
-- 
2.43.0


From 856e735f25832b5687823526bed4328ca8e9a6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 28/44] fix: hybrid continuous-time Lyapunov derivative for
 one-dimensional states

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 992ccb3..df91c20 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -390,8 +390,8 @@ class LyapunovContinuousTimeHybridSystem(lyapunov.LyapunovHybridLinearSystem):
         for i in range(len(dReLU_dx_all)):
             for j in range(len(state_error_grad)):
                 dV_dx[i * len(state_error_grad) + j] = \
-                    dReLU_dx_all[i].squeeze() + \
-                    V_lambda * state_error_grad[j].squeeze()
+                    dReLU_dx_all[i].reshape((-1, )) + \
+                    V_lambda * state_error_grad[j]
         Vdot_all = [None] * (len(dV_dx) * len(xdot_all))
         for i in range(len(dV_dx)):
             for j in range(len(xdot_all)):
-- 
2.43.0


From 9f415782229a81039cef8ff121f960f9955f3acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 29/44] fix: solve_barrier_derivative_mip crashed when no state
 violates and only adversarial states are kept

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index f260d06..19fa3c5 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -583,7 +583,11 @@ class Trainer:
                 mip_adversarial.append(
                     torch.tensor([v.xn for v in barrier_deriv_return.x],
                                  dtype=dtype))
-        mip_adversarial = torch.stack(mip_adversarial)
+        if len(mip_adversarial) > 0:
+            mip_adversarial = torch.stack(mip_adversarial)
+        else:
+            mip_adversarial = torch.empty(
+                (0, self.barrier_system.system.x_dim), dtype=dtype)
         return barrier_deriv_return.milp, barrier_deriv_mip_obj,\
             mip_adversarial
 
-- 
2.43.0


From 0b47fe4ed234ff4f14c139bb569606fa26c9ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 30/44] fix: second-order control-affine encoding crashed when
 b(x) depends on x directly

---
 neural_network_lyapunov/control_affine_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/control_affine_system.py b/neural_network_lyapunov/control_affine_system.py
index 79382d9..5354582 100644
--- a/neural_network_lyapunov/control_affine_system.py
+++ b/neural_network_lyapunov/control_affine_system.py
@@ -215,7 +215,7 @@ class SecondOrderControlAffineSystem(ControlPiecewiseAffineSystem):
                     field]
         if mip_cnstr_b_flat.Aout_input is not None:
             ret.mip_cnstr_G.Aout_input = torch.vstack(
-                (torch.zeros((self.nq * self.u_dim, self.nq),
+                (torch.zeros((self.nq * self.u_dim, self.x_dim),
                              dtype=self.dtype), mip_cnstr_b_flat.Aout_input))
         if mip_cnstr_b_flat.Aout_slack is not None:
             ret.mip_cnstr_G.Aout_slack = torch.vstack((torch.zeros(
-- 
2.43.0


From 7e0f22db90d38b92fcd6cfc29e25b1187e31850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 31/44] fix: rhs_eq of the hybrid linear encodings must be a
 vector

---
 neural_network_lyapunov/hybrid_linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index d4f63d5..aacbeb1 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -267,7 +267,7 @@ class HybridLinearSystem:
         mip_cnstr_return.rhs_in = rhs_in
         mip_cnstr_return.Aeq_binary = torch.ones((1, self.num_modes),
                                                  dtype=self.dtype)
-        mip_cnstr_return.rhs_eq = torch.tensor([[1.]], dtype=self.dtype)
+        mip_cnstr_return.rhs_eq = torch.tensor([1.], dtype=self.dtype)
         return mip_cnstr_return
 
     def add_dynamics_constraint(self,
@@ -556,7 +556,7 @@ class AutonomousHybridLinearSystem:
             self.num_modes,
         ),
                                                  dtype=self.dtype)
-        mip_cnstr_return.rhs_eq = torch.tensor([[1.]], dtype=self.dtype)
+        mip_cnstr_return.rhs_eq = torch.tensor([1.], dtype=self.dtype)
         return mip_cnstr_return
 
     def add_dynamics_constraint(self, mip, x_var, x_next_var, slack_var_name,
-- 
2.43.0


From 4de86675df8274fcaa4338288c98d638cc3c166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 32/44] fix: the discrete-time cost-to-go changed the tensor
 returned by the cost function in place

---
 neural_network_lyapunov/hybrid_linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index aacbeb1..5b1f70c 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -680,7 +680,7 @@ def compute_discrete_time_system_cost_to_go(system,
     if x_goal is not None:
         assert (isinstance(x_goal, torch.Tensor))
         assert (x_goal.shape == (system.x_dim, ))
-    total_cost = instantaneous_cost_fun(x_start)
+    total_cost = instantaneous_cost_fun(x_start).clone()
     costs_from_start = [None] * (num_steps + 1)
     costs_from_start[0] = total_cost.clone()
     cost_steps = [None] * (num_steps + 1)
-- 
2.43.0


From 8757a76fcdaabbaef92816f08956f1190b220295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 33/44] fix: a discrete-time trajectory leaving the modes
 aborted cost-to-go sampling

---
 neural_network_lyapunov/hybrid_linear_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 5b1f70c..a386fc1 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -698,7 +698,10 @@ def compute_discrete_time_system_cost_to_go(system,
                 mode = j
                 x_steps[i + 1] = system.A[j] @ x_steps[i] + system.g[j]
                 break
-        assert (mode is not None)
+        if mode is None:
+            raise AutonomousHybridLinearSystem.StepForwardException(
+                "compute_discrete_time_system_cost_to_go: x is not in any "
+                "mode.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
         total_cost += cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
-- 
2.43.0


From b66543102c358ec18657670c0d91a0b0d1631a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 34/44] fix: partition_state_input_space rounded the cells to
 single precision

---
 neural_network_lyapunov/hybrid_linear_system.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index a386fc1..67346e1 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -912,14 +912,14 @@ def partition_state_input_space(x_lo, x_up, u_lo, u_up, num_breaks_x,
     states_u_up = torch.Tensor(0, u_dim).type(dtype)
     for k in range(indices_cart_product.shape[0]):
         indices = indices_cart_product[k, :]
-        sample = torch.Tensor([
-            grid_samples[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        sample = torch.tensor(
+            [grid_samples[i][indices[i]] for i in range(x_dim + u_dim)],
+            dtype=dtype)
         x_sample = sample[:x_dim]
         u_sample = sample[x_dim:x_dim + u_dim]
-        sample_limits = torch.Tensor([
-            grid_limits[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        sample_limits = torch.tensor(
+            [grid_limits[i][indices[i]] for i in range(x_dim + u_dim)],
+            dtype=dtype)
         sample_lo = sample_limits[:, 0]
         sample_up = sample_limits[:, 1]
         x_sample_lo = sample_lo[:x_dim] - x_delta_scaled
-- 
2.43.0


From a0d3dbdef05b7eb40d75b8935f88eec9d20a80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 35/44] fix: SLIP linear approximation stores scalars, not
 length-1 arrays

---
 neural_network_lyapunov/slip_hybrid_linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/slip_hybrid_linear_system.py b/neural_network_lyapunov/slip_hybrid_linear_system.py
index 3ca0eb6..e3a39b0 100644
--- a/neural_network_lyapunov/slip_hybrid_linear_system.py
+++ b/neural_network_lyapunov/slip_hybrid_linear_system.py
@@ -82,9 +82,9 @@ class SlipHybridLinearSystem:
         # Now approximate the constraint that at liftoff, the vertical velocity
         # should be positive.
         P[1, :3] = -dx_post_lo_dx_apex[3, :]
-        P[1, 3] = -dx_post_lo_dleg_angle[3]
+        P[1, 3] = -dx_post_lo_dleg_angle[3, 0]
         q[1, 0] = x_post_lo[3] - dx_post_lo_dx_apex[3, :].dot(apex_state) -\
-            dx_post_lo_dleg_angle[3] * leg_angle
+            dx_post_lo_dleg_angle[3, 0] * leg_angle
         # Now approximate the constraint that the touchdown point is on the
         # stepping stone left ≤ x⁻_TD[0] + l₀sinθ ≤ right
         constraint_count = 2
-- 
2.43.0


From ff780794628c6723198e060ff1e393999b89879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 36/44] fix: IA_MIP keeps the gradient of an active upper
 output bound

---
 neural_network_lyapunov/relu_to_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/relu_to_optimization.py b/neural_network_lyapunov/relu_to_optimization.py
index f0e6f24..d926ab6 100644
--- a/neural_network_lyapunov/relu_to_optimization.py
+++ b/neural_network_lyapunov/relu_to_optimization.py
@@ -654,7 +654,7 @@ class ReLUFreePattern:
                         linear_output_lo[i] += 0.01 * linear_output_lo_ia[i]
                     if torch.abs(linear_output_up[i] -
                                  linear_output_up_ia[i]) < 1E-3:
-                        linear_output_up[i] = linear_output_up_ia[i].detach()
+                        linear_output_up[i] = linear_output_up_ia[i]
                     else:
                         linear_output_up[i] *= 0.99
                         linear_output_up[
-- 
2.43.0


From 7b93872cedb6a5c2de19a24869748875d48a7025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 37/44] fix: train reused the graph of the next sample states
 across iterations

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 19fa3c5..a629394 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -899,13 +899,15 @@ class Trainer:
                 self.lyapunov_hybrid_system.system.x_dim)
         positivity_state_samples = state_samples_all.clone()
         derivative_state_samples = state_samples_all.clone()
+        # The next states are reused in every iteration, so they must not carry
+        # the graph of an earlier iteration.
         if (state_samples_all.shape[0] > 0):
             derivative_state_samples_next = torch.stack([
                 self.lyapunov_hybrid_system.system.step_forward(
                     derivative_state_samples[i])
                 for i in range(derivative_state_samples.shape[0])
             ],
-                                                        dim=0)
+                                                        dim=0).detach()
         else:
             derivative_state_samples_next = torch.empty_like(state_samples_all)
         iter_count = 0
@@ -951,7 +953,8 @@ class Trainer:
             derivative_state_samples = \
                 total_loss_return.lyap_loss.derivative_state_samples
             derivative_state_samples_next = \
-                total_loss_return.lyap_loss.derivative_state_samples_next
+                total_loss_return.lyap_loss.\
+                derivative_state_samples_next.detach()
 
             if self.enable_wandb:
                 wandb.log({
-- 
2.43.0


From cc58f4a54439ff41c6f335012d826b73fcecc95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 38/44] fix: adversarial_samples crashed when no state violates
 the derivative condition

---
 neural_network_lyapunov/dynamics_learning.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 0ea8ba9..364ba6f 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -149,17 +149,17 @@ class DynamicsLearning:
             lyap_der_mip.gurobi_model.optimize(
                 utils.get_gurobi_terminate_if_callback())
         num_sol = lyap_der_mip.gurobi_model.solCount
-        z_adv_der = []
+        z_adv_der_lo = []
         for i in range(num_sol):
             lyap_der_mip.gurobi_model.setParam(
                 gurobipy.GRB.Param.SolutionNumber, i)
             obj = lyap_der_mip.gurobi_model.PoolObjVal
             if obj > 0:
-                z_adv_der.append(
+                z_adv_der_lo.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_der) > 0:
-            z_adv_der_lo = torch.cat(z_adv_der, dim=0)
+        if len(z_adv_der_lo) > 0:
+            z_adv_der_lo = torch.cat(z_adv_der_lo, dim=0)
 
         lyap_der_mip_ = self.lyap.lyapunov_derivative_as_milp(
             self.lyap.system.x_equilibrium,
@@ -177,17 +177,17 @@ class DynamicsLearning:
             lyap_der_mip.gurobi_model.optimize(
                 utils.get_gurobi_terminate_if_callback())
         num_sol = lyap_der_mip.gurobi_model.solCount
-        z_adv_der = []
+        z_adv_der_up = []
         for i in range(num_sol):
             lyap_der_mip.gurobi_model.setParam(
                 gurobipy.GRB.Param.SolutionNumber, i)
             obj = lyap_der_mip.gurobi_model.PoolObjVal
             if obj > 0:
-                z_adv_der.append(
+                z_adv_der_up.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_der) > 0:
-            z_adv_der_up = torch.cat(z_adv_der, dim=0)
+        if len(z_adv_der_up) > 0:
+            z_adv_der_up = torch.cat(z_adv_der_up, dim=0)
 
         return z_adv_pos, z_adv_der_lo, z_adv_der_up
 
-- 
2.43.0


From 3d08fd3489a915f7cf330b7928f042c4acaaa1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 39/44] fix: the L2 reconstruction loss only looked at the
 first image of a batch

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 364ba6f..34311d4 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -778,7 +778,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         if self.opt.use_bce:
             loss = self.bce_loss(x_decoded, x)
         else:
-            loss = (x - x_decoded).pow(2).mean(dim=[1, 2, 3])[0]
+            loss = (x - x_decoded).pow(2).mean()
         return loss
 
     def dynamics_loss(self, x, x_next):
-- 
2.43.0


From f5bc82ca892e277250ec47ccd0076a0a999a976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 40/44] fix: rollout_loss took the expected images as the
 prediction of the cross entropy

---
 neural_network_lyapunov/dynamics_learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 34311d4..4ee1c23 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -883,8 +883,8 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
             rollout_expected.shape[0] - 2,
             decode_intermediate=decode_intermediate)
         if self.opt.use_bce:
-            loss = self.bce_loss_none(rollout_expected,
-                                      rollout_pred).mean(dim=[1, 2, 3])
+            loss = self.bce_loss_none(rollout_pred,
+                                      rollout_expected).mean(dim=[1, 2, 3])
         else:
             loss = (rollout_expected - rollout_pred).pow(2).mean(dim=[1, 2, 3])
         return loss
-- 
2.43.0


From edfc158e4b16bc2d55b4e5286afcf46e1a9a50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 41/44] fix: validation crashed when a batch has no sample in
 the stable region

---
 neural_network_lyapunov/dynamics_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 4ee1c23..5d189bd 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -336,11 +336,11 @@ class DynamicsLearning:
         x = x_all[torch.all(x_all <= x_up.to(x_all.device), dim=1), :]
         x = x[torch.all(x >= x_lo.to(x_all.device), dim=1), :]
         if x.shape[0] == 0:
-            sample_pos_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_pos_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
-            sample_der_lo_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_der_lo_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
-            sample_der_up_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_der_up_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
             return sample_pos_loss, sample_der_lo_loss, sample_der_up_loss
         x_next = self.lyap.system.step_forward(x)
-- 
2.43.0


From 5f0985f88eb628af3158fad236a6dcbe2cd4698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:13 +0000
Subject: [PATCH 42/44] fix: accept relaxed binaries handed to
 add_mixed_integer_linear_constraints

---
 neural_network_lyapunov/gurobi_torch_mip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index df36648..5e67d3b 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -777,7 +777,10 @@ class GurobiTorchMIP:
                     (isinstance(v, gurobipy.Var) for v in binary_var_name)):
                 binary = binary_var_name
                 assert (len(binary) == binary_size)
-                assert (all((v.vtype == binary_var_type for v in binary)))
+                # A relaxed binary variable is a continuous Gurobi variable.
+                gurobi_vtype = gurobipy.GRB.CONTINUOUS if \
+                    binary_var_type == BINARYRELAX else binary_var_type
+                assert (all((v.vtype == gurobi_vtype for v in binary)))
         else:
             binary = []
 
-- 
2.43.0


From 06ba6ac49f5992e8b942eab1bc9ca0cd6e81adc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:13 +0000
Subject: [PATCH 43/44] fix: enforce the bounds on binaries handed to
 add_mixed_integer_linear_constraints

---
 neural_network_lyapunov/gurobi_torch_mip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 5e67d3b..b69e39f 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -771,8 +771,6 @@ class GurobiTorchMIP:
                                       ub=1.,
                                       vtype=binary_var_type,
                                       name=binary_var_name)
-                set_var_bound(binary, mip_cnstr_return.binary_lo,
-                              mip_cnstr_return.binary_up)
             elif isinstance(binary_var_name, list) and all(
                     (isinstance(v, gurobipy.Var) for v in binary_var_name)):
                 binary = binary_var_name
@@ -781,6 +779,8 @@ class GurobiTorchMIP:
                 gurobi_vtype = gurobipy.GRB.CONTINUOUS if \
                     binary_var_type == BINARYRELAX else binary_var_type
                 assert (all((v.vtype == gurobi_vtype for v in binary)))
+            set_var_bound(binary, mip_cnstr_return.binary_lo,
+                          mip_cnstr_return.binary_up)
         else:
             binary = []
 
-- 
2.43.0


From d7b1b1d1f92dea59b0fdc294195fd77e7f0075a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 44/44] fix: relax every binary of the continuous-time
 derivative program

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index df91c20..2701f79 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -99,7 +99,7 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
         # Adds the mixed-integer constraints to compute V(x).
         relu_slack, relu_binary, relu_a_out, relu_b_out,\
             relu_output_mip_cnstr_ret = self.add_lyap_relu_output_constraint(
-                milp, x)
+                milp, x, binary_var_type=binary_var_type)
 
         l1_slack, l1_binary = self.add_state_error_l1_constraint(
             milp,
-- 
2.43.0

