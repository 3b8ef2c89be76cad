From aaf60178a35886afe31fa0963d64e0bf147e8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:15 +0000
Subject: [PATCH 01/17] fix: support dynamic, zero and empty inequality
 dimensions in FMPC

FmpcSolver did not compile with IneqDim == Eigen::Dynamic or 0 (both are
documented as supported), and reduced empty vectors (minCoeff/maxCoeff,
division by zero inequality count) for steps without inequality.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 14 ++++++++++----
 nmpc_fmpc/include/nmpc_fmpc/MathUtils.h    |  7 ++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 42503b1..b10bc9d 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -384,10 +384,16 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
     for(int i = 0; i < config_.horizon_steps; i++)
     {
       s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
-      s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
+      if(variable_.s_list[i].size() > 0)
+      {
+        s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
+      }
       total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
     }
-    s_nu_ave /= total_ineq_dim;
+    if(total_ineq_dim > 0)
+    {
+      s_nu_ave /= total_ineq_dim;
+    }
 
     double sigma = 0.5;
     // The following equations follow (19.20) in "Nocedal, Wright. Numerical optimization" but does not work
@@ -886,7 +892,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
       merit_func_const += const_func.template lpNorm<1>();
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity().eval(), delta_s);
+      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
     }
   }
 
@@ -909,7 +915,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       merit_const_scale_ = std::max(merit_const_scale_, variable_.lambda_list[i].cwiseAbs().maxCoeff());
 
-      if(i < config_.horizon_steps)
+      if(i < config_.horizon_steps && variable_.nu_list[i].size() > 0)
       {
         merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
       }
diff --git a/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h b/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h
index 36b0946..2751a4f 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h
@@ -19,19 +19,20 @@ double l1NormDirectionalDeriv(const Eigen::Matrix<double, OutputDim, 1> & func,
                               const Eigen::Matrix<double, InputDim, 1> & dir)
 {
   double deriv = 0.0;
+  const Eigen::Matrix<double, OutputDim, 1> func_deriv = jac * dir;
   for(int i = 0; i < func.size(); i++)
   {
     if(func(i) > 0)
     {
-      deriv += jac.row(i).transpose().dot(dir);
+      deriv += func_deriv(i);
     }
     else if(func(i) < 0)
     {
-      deriv += -1 * jac.row(i).transpose().dot(dir);
+      deriv += -1 * func_deriv(i);
     }
     else
     {
-      deriv += std::abs(jac.row(i).transpose().dot(dir));
+      deriv += std::abs(func_deriv(i));
     }
   }
   return deriv;
-- 
2.43.0


From cb59afaaae7459e1c71dd3ffbda6b5646183ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:28 +0000
Subject: [PATCH 02/17] fix: initialize unused members of FMPC terminal
 coefficient

containsNaN() reads all members of the terminal coefficient, but the members
of fixed dimension that are not used in the terminal step were left
uninitialized, so the backward pass could fail spuriously.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index b10bc9d..c8206b1 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -122,6 +122,20 @@ FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim,
 template<int StateDim, int InputDim, int IneqDim>
 FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim)
 {
+  // The members which are not used in terminal step must be initialized because containsNaN() checks all members
+  A.setZero();
+  B.setZero();
+  C.setZero();
+  D.setZero();
+  Lu.setZero();
+  Luu.setZero();
+  Lxu.setZero();
+  x_bar.setZero();
+  g_bar.setZero();
+  Lu_bar.setZero();
+  k.setZero();
+  K.setZero();
+
   Lx.resize(state_dim);
   Lxx.resize(state_dim, state_dim);
   Lx_bar.resize(state_dim);
-- 
2.43.0


From 65fed6266e0fd2902a9aeb8b437fc6e0ffb3f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:57 +0000
Subject: [PATCH 03/17] fix: check FMPC variable lengths before initializing
 complementary variables

With init_complementary_variable enabled, the sequences were indexed up to
horizon_steps before their lengths were checked, so a too short initial
variable caused out-of-range access instead of an exception.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h   |  5 ++++-
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
index e529562..d211531 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
@@ -345,7 +345,10 @@ public:
   void dumpTraceDataList(const std::string & file_path) const;
 
 protected:
-  /** \brief Check optimization variables. */
+  /** \brief Check sequence length and input dimension of optimization variables. */
+  void checkSequence() const;
+
+  /** \brief Check inequality dimension and sign of optimization variables. */
   void checkVariable() const;
 
   /** \brief Process one iteration.
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index c8206b1..91fa2e1 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -182,6 +182,9 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   variable_ = initial_variable;
   variable_.print_level = config_.print_level;
 
+  // Check sequence length and input dimension of variable_
+  checkSequence();
+
   // Initialize complementarity variables
   if(config_.init_complementary_variable)
   {
@@ -296,7 +299,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::dumpTraceDataList(const std::strin
   }
 }
 template<int StateDim, int InputDim, int IneqDim>
-void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkSequence() const
 {
   // Check sequence length
   if(static_cast<int>(variable_.x_list.size()) != config_.horizon_steps + 1)
@@ -325,10 +328,10 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                 + std::to_string(variable_.nu_list.size()) + ".");
   }
 
-  // Check element dimension
-  for(int i = 0; i < config_.horizon_steps; i++)
+  // Check input dimension
+  if constexpr(InputDim == Eigen::Dynamic)
   {
-    if constexpr(InputDim == Eigen::Dynamic)
+    for(int i = 0; i < config_.horizon_steps; i++)
     {
       double t = current_t_ + i * problem_->dt();
       int input_dim = problem_->inputDim(t);
@@ -339,6 +342,15 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
                                  + ", time: " + std::to_string(t));
       }
     }
+  }
+}
+
+template<int StateDim, int InputDim, int IneqDim>
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+{
+  // Check inequality dimension
+  for(int i = 0; i < config_.horizon_steps; i++)
+  {
     if constexpr(IneqDim == Eigen::Dynamic)
     {
       double t = current_t_ + i * problem_->dt();
-- 
2.43.0


From bd944b77517d04f7c197534d811d6dbc4168ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:57 +0000
Subject: [PATCH 04/17] fix: do not access empty trace data list when FMPC runs
 no iteration

With print_level >= 3 and max_iter == 0, solve() called back() on the empty
trace data list.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 91fa2e1..0d0b6c7 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -264,7 +264,7 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   computation_duration_.opt = calcDuration(setup_time, end_time);
   computation_duration_.solve = calcDuration(start_time, end_time);
 
-  if(config_.print_level >= 3)
+  if(config_.print_level >= 3 && !trace_data_list_.empty())
   {
     std::cout << "[FMPC] Solve finised. status: " << static_cast<int>(status)
               << ", iter: " << trace_data_list_.back().iter << std::endl;
-- 
2.43.0


From 4de5ee9bd8befe45846cff1e155c207d3e9bc360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:57 +0000
Subject: [PATCH 05/17] fix: directional derivative of FMPC merit function at
 zero constraint residual

The L1-norm is not differentiable at zero: summing |A dx| + |B du| + |dx'|
overestimates the derivative along the joint direction, so that line search
accepted steps which increase the merit function. The scale of constraint
errors was also NaN or infinity when all constraint residuals are zero.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 0d0b6c7..066202f 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -907,18 +907,18 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       StateDimVector const_func = problem_->stateEq(t, x, u) - next_x;
       merit_func_const += const_func.template lpNorm<1>();
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.A, delta_x);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.B, delta_u);
-      merit_deriv_const +=
-          l1NormDirectionalDeriv(const_func, (-1 * StateStateDimMatrix::Identity()).eval(), delta_next_x);
+      // The L1-norm is not differentiable at zero, so the directional derivative must be calculated for the joint
+      // direction of all variables (it is not the sum of the directional derivatives w.r.t. each variable)
+      StateDimVector const_deriv = coeff.A * delta_x + coeff.B * delta_u - delta_next_x;
+      merit_deriv_const += l1NormDirectionalDeriv(const_func, StateStateDimMatrix::Identity().eval(), const_deriv);
     }
 
     {
       IneqDimVector const_func = problem_->ineqConst(t, x, u) + s;
       merit_func_const += const_func.template lpNorm<1>();
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
+      IneqDimVector const_deriv = coeff.C * delta_x + coeff.D * delta_u + delta_s;
+      merit_deriv_const +=
+          l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), const_deriv);
     }
   }
 
@@ -951,7 +951,11 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
   {
     // (18.33) in "Nocedal, Wright. Numerical optimization"
     constexpr double rho = 0.5;
-    merit_const_scale_ = std::max(merit_deriv_obj / ((1.0 - rho) * merit_func_const), merit_const_scale_min);
+    merit_const_scale_ = merit_const_scale_min;
+    if(merit_func_const > 0.0)
+    {
+      merit_const_scale_ = std::max(merit_deriv_obj / ((1.0 - rho) * merit_func_const), merit_const_scale_min);
+    }
   }
 
   merit_func_ = merit_func_obj + merit_const_scale_ * merit_func_const;
-- 
2.43.0


From 10c33a22c1ac6c48864c0d8f7836ea31baa0c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:18 +0000
Subject: [PATCH 06/17] fix: impose input limits on rollout inputs in DDP

The input limits were considered only in the box QP of the backward pass, so
the feedback term in the forward pass and the initial input sequence could
violate them in the returned control data.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index a34bc82..3421547 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -87,6 +87,11 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
   for(int i = 0; i < config_.horizon_steps; i++)
   {
     double t = current_t_ + i * problem_->dt();
+    if(config_.with_input_constraint && initial_u_list[i].size() > 0)
+    {
+      const auto & u_limits = input_limits_func_(t);
+      control_data_.u_list[i] = initial_u_list[i].cwiseMin(u_limits[1]).cwiseMax(u_limits[0]);
+    }
     control_data_.x_list[i + 1] = problem_->stateEq(t, control_data_.x_list[i], control_data_.u_list[i]);
     control_data_.cost_list[i] = problem_->runningCost(t, control_data_.x_list[i], control_data_.u_list[i]);
   }
@@ -545,10 +550,16 @@ void DDPSolver<StateDim, InputDim>::forwardPass(double alpha)
     candidate_control_data_.u_list[i] = control_data_.u_list[i] + alpha * k_list_[i]
                                         + K_list_[i] * (candidate_control_data_.x_list[i] - control_data_.x_list[i]);
 
-    // \todo Impose constraints on input
+    // Impose constraints on input
+    double t = current_t_ + i * problem_->dt();
+    if(config_.with_input_constraint && candidate_control_data_.u_list[i].size() > 0)
+    {
+      const auto & u_limits = input_limits_func_(t);
+      candidate_control_data_.u_list[i] =
+          candidate_control_data_.u_list[i].cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();
+    }
 
     // Calculate next state and cost
-    double t = current_t_ + i * problem_->dt();
     candidate_control_data_.x_list[i + 1] =
         problem_->stateEq(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
     candidate_control_data_.cost_list[i] =
-- 
2.43.0


From 19e7227c732dfe4deedbbf8ddfd2354f485d32c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:18 +0000
Subject: [PATCH 07/17] fix: treat non-finite gains as failure of DDP backward
 pass

LLT does not report an error for NaN, and the NaN gains were dropped by
std::max in the termination check, so solve() could return true for a problem
whose derivatives are NaN.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 3421547..0f43eed 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -521,6 +521,15 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
       K.setZero(0, problem_->stateDim());
     }
 
+    if(!k.allFinite() || !K.allFinite())
+    {
+      if(config_.print_level >= 1)
+      {
+        std::cout << "[DDP/Backward] Gains contain NaN or infinity." << std::endl;
+      }
+      return false;
+    }
+
     computation_duration_.gain += calcDuration(start_time_gain, std::chrono::system_clock::now());
 
     // Update cost-to-go approximation
-- 
2.43.0


From d6adbfbda5037fc706cbca57e073a7e3a1819029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:18 +0000
Subject: [PATCH 08/17] fix: set cost and lambda of DDP trace data in the last
 iteration

The trace data of an iteration terminated by small gradient or by failure of
the backward pass was left with zero cost and zero lambda.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 0f43eed..dc270e2 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -205,6 +205,9 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
           std::cout << "[DDP/Backward] Failure due to large lambda. (time: " << current_t_ << ", iter: " << iter << ")"
                     << std::endl;
         }
+        trace_data.cost = control_data_.cost_list.sum();
+        trace_data.lambda = lambda_;
+        trace_data.dlambda = dlambda_;
         return -1; // Failure
       }
       if(config_.print_level >= 3)
@@ -232,6 +235,9 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       std::cout << "[DDP] Terminate due to small gradient. (time: " << current_t_ << ", iter: " << iter << ")"
                 << std::endl;
     }
+    trace_data.cost = control_data_.cost_list.sum();
+    trace_data.lambda = lambda_;
+    trace_data.dlambda = dlambda_;
     return 1; // Terminate
   }
 
-- 
2.43.0


From b105ba04e3cda81bc9a9e6de88e9f9b615ba89eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:18 +0000
Subject: [PATCH 09/17] fix: stop GMRES at breakdown of Arnoldi process

When b is zero (or the tolerance is zero), the relative tolerance cannot be
satisfied even if the exact solution has been found, and the iteration went on
with a meaningless basis vector, resulting in NaN or wrong solution.
---
 nmpc_cgmres/include/nmpc_cgmres/Gmres.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nmpc_cgmres/include/nmpc_cgmres/Gmres.h b/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
index 2c908c3..6112d85 100644
--- a/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
+++ b/nmpc_cgmres/include/nmpc_cgmres/Gmres.h
@@ -176,6 +176,13 @@ public:
       }
 
       err_list_.push_back(rho);
+
+      // The Krylov subspace cannot be extended any more, and the solution has been found in it
+      double Avk_norm = Avk.norm();
+      if(Avk_norm + 1e-3 * new_basis_norm == Avk_norm)
+      {
+        break;
+      }
     }
 
     if(make_triangular_)
-- 
2.43.0


From 73ce0a913d606c0d66cca9d3f8e86d48bac52d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:40 +0000
Subject: [PATCH 10/17] fix: avoid jamming of BoxQP near bounds

A dimension next to (but not exactly on) its bound restricted the projected
line search to a tiny step, and the small improvement was then reported as
convergence at a point far from the minimum.
---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 44 ++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index 0b42fa5..a20a3c4 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -145,7 +145,24 @@ public:
                             const VarDimVector & initial_x)
   {
     // Initialize objective value
-    VarDimVector x = initial_x.cwiseMin(upper).cwiseMax(lower);
+    // Project into the bounds, regarding the dimensions within rounding error of the bounds as on the bounds
+    auto project = [&](const VarDimVector & x_raw) {
+      VarDimVector x_proj = x_raw.cwiseMin(upper).cwiseMax(lower);
+      for(int i = 0; i < var_dim_; i++)
+      {
+        double eps = 1e-10 * (1.0 + std::abs(x_proj[i]));
+        if(x_proj[i] - lower[i] < eps)
+        {
+          x_proj[i] = lower[i];
+        }
+        else if(upper[i] - x_proj[i] < eps)
+        {
+          x_proj[i] = upper[i];
+        }
+      }
+      return x_proj;
+    };
+    VarDimVector x = project(initial_x);
     double obj = x.dot(g) + 0.5 * x.dot(H * x);
     double old_obj = obj;
 
@@ -164,6 +181,7 @@ public:
     VarDimArray clamped_flag = VarDimArray::Zero(var_dim_);
     VarDimArray old_clamped_flag = clamped_flag;
     int iter = 1;
+    bool reach_bound = false;
     free_idxs_.clear();
     for(;; iter++)
     {
@@ -172,8 +190,8 @@ public:
       auto & trace_data = trace_data_list_.back();
       trace_data.iter = iter;
 
-      // Check relative improvement
-      if(iter > 1 && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
+      // Check relative improvement (small improvement does not mean convergence if step was restricted by bounds)
+      if(iter > 1 && !reach_bound && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
       {
         retval_ = 4;
         break;
@@ -290,16 +308,29 @@ public:
         break;
       }
 
+      // Calculate step at which the first dimension reaches its bound
+      double bound_step = std::numeric_limits<double>::infinity();
+      for(int i = 0; i < var_dim_; i++)
+      {
+        double dist = (search_dir[i] > 0 ? upper[i] - x[i] : x[i] - lower[i]);
+        if(dist > 0 && search_dir[i] != 0)
+        {
+          bound_step = std::min(bound_step, dist / std::abs(search_dir[i]));
+        }
+      }
+
       // Armijo linesearch
       double step = 1;
       int step_num = 0;
-      VarDimVector x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
+      VarDimVector x_candidate = project(x + step * search_dir);
       double obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
       while((obj_candidate - old_obj) / (step * search_dir_grad) < config_.armijo_param)
       {
-        step = step * config_.step_factor;
+        // Do not skip the step at which the first dimension reaches its bound
+        bool skip_bound_step = step > bound_step && step * config_.step_factor < bound_step;
+        step = skip_bound_step ? bound_step : step * config_.step_factor;
         step_num++;
-        x_candidate = (x + step * search_dir).cwiseMin(upper).cwiseMax(lower);
+        x_candidate = project(x + step * search_dir);
         obj_candidate = x_candidate.dot(g) + 0.5 * x_candidate.dot(H * x_candidate);
         if(step < config_.min_step)
         {
@@ -325,6 +356,7 @@ public:
       trace_data.step_num = step_num;
 
       // Accept candidate
+      reach_bound = step >= bound_step;
       x = x_candidate;
       obj = obj_candidate;
 
-- 
2.43.0


From dbf9caebe0f477bed1f6a1192811fdd8000494ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:38 +0000
Subject: [PATCH 11/17] fix: do not accept DDP step whose cost is not finite

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index dc270e2..b72a2a9 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -268,7 +268,7 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
         }
         cost_update_ratio = (cost_update_actual >= 0 ? 1 : -1);
       }
-      if(cost_update_ratio > config_.cost_update_ratio_thre)
+      if(cost_update_ratio > config_.cost_update_ratio_thre && std::isfinite(candidate_control_data_.cost_list.sum()))
       {
         forward_pass_success = true;
         break;
-- 
2.43.0


From d4356c058c5dadb97364ff19296867802ae772ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:38 +0000
Subject: [PATCH 12/17] fix: allow the current state given to DDP to refer to
 its own control data

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index b72a2a9..9071d6a 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -33,6 +33,8 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
   auto start_time = std::chrono::system_clock::now();
 
   // Initialize variables
+  // current_x is copied because it may refer to an element of control_data_.x_list, which is resized below
+  const StateDimVector initial_x = current_x;
   current_t_ = current_t;
   lambda_ = config_.initial_lambda;
   dlambda_ = config_.initial_dlambda;
@@ -83,7 +85,7 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
   control_data_.u_list = initial_u_list;
   control_data_.x_list.resize(config_.horizon_steps + 1);
   control_data_.cost_list.resize(config_.horizon_steps + 1);
-  control_data_.x_list[0] = current_x;
+  control_data_.x_list[0] = initial_x;
   for(int i = 0; i < config_.horizon_steps; i++)
   {
     double t = current_t_ + i * problem_->dt();
-- 
2.43.0


From 7dfa4f49eb626a3499cb8d47a60cfba87018f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:08 +0000
Subject: [PATCH 13/17] fix: do not report success of DDP whose cost is not
 finite

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 9071d6a..8316332 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -230,7 +230,8 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
     k_rel_norm = std::max(k_rel_norm, k_list_[i].norm() / (control_data_.u_list[i].norm() + 1.0));
   }
   trace_data.k_rel_norm = k_rel_norm;
-  if(k_rel_norm < config_.k_rel_norm_thre && lambda_ < config_.lambda_thre)
+  if(k_rel_norm < config_.k_rel_norm_thre && lambda_ < config_.lambda_thre
+     && std::isfinite(control_data_.cost_list.sum()))
   {
     if(config_.print_level >= 2)
     {
-- 
2.43.0


From 002e50cbfca1e04f3fd5909f905f84605154f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:17 +0000
Subject: [PATCH 14/17] fix: support statically zero input dimension in DDP

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 8316332..8ce0888 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -459,7 +459,12 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
     // Calculate gains
     auto start_time_gain = std::chrono::system_clock::now();
 
-    if(input_dim > 0)
+    if constexpr(InputDim == 0)
+    {
+      k.setZero();
+      K.setZero();
+    }
+    else if(input_dim > 0)
     {
       if(config_.with_input_constraint)
       {
-- 
2.43.0


From 4fcc174885ba95b68ecbb17d95d482a5186d3aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:17 +0000
Subject: [PATCH 15/17] fix: support statically zero input dimension in FMPC

---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 066202f..6bcc85f 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -622,7 +622,12 @@ bool FmpcSolver<StateDim, InputDim, IneqDim>::backwardPass()
       auto start_time_gain_solve = std::chrono::system_clock::now();
 
       int input_dim = static_cast<int>(B.cols());
-      if(input_dim > 0)
+      if constexpr(InputDim == 0)
+      {
+        k.setZero();
+        K.setZero();
+      }
+      else if(input_dim > 0)
       {
         // In numerically difficult cases, LLT may diverge and LDLT may work.
         Eigen::LDLT<InputInputDimMatrix> llt_G(G);
-- 
2.43.0


From b9d4d6755af9279b1185cd99bccff9e92f0cd834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:22 +0000
Subject: [PATCH 16/17] fix: count the duration of a failed DDP backward pass

ComputationDuration documents Q, reg and gain as included in backward, but the
time of a backward pass that failed due to large lambda was added to the parts
and not to backward (nor to the trace).
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 8ce0888..9188175 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -194,6 +194,11 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
   // Step 2: backward pass, compute optimal control law and cost-to-go
   {
     auto start_time = std::chrono::system_clock::now();
+    auto record_duration = [&]() {
+      double duration_backward = calcDuration(start_time, std::chrono::system_clock::now());
+      trace_data.duration_backward = duration_backward;
+      computation_duration_.backward += duration_backward;
+    };
 
     while(!backwardPass())
     {
@@ -210,6 +215,7 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
         trace_data.cost = control_data_.cost_list.sum();
         trace_data.lambda = lambda_;
         trace_data.dlambda = dlambda_;
+        record_duration();
         return -1; // Failure
       }
       if(config_.print_level >= 3)
@@ -218,9 +224,7 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       }
     }
 
-    double duration_backward = calcDuration(start_time, std::chrono::system_clock::now());
-    trace_data.duration_backward = duration_backward;
-    computation_duration_.backward += duration_backward;
+    record_duration();
   }
 
   // Check for termination due to small gradient
-- 
2.43.0


From a2467fd49495611b4f923547a27e11c4d503733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:22 +0000
Subject: [PATCH 17/17] fix: count the duration of a failed FMPC backward pass

ComputationDuration documents gain_pre, gain_solve and gain_post as included in
backward, but the time of a failed backward pass was added only to the parts.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 6bcc85f..0e102b6 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -483,14 +483,16 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   {
     auto start_time = std::chrono::system_clock::now();
 
-    if(!backwardPass())
-    {
-      return Status::ErrorInBackward;
-    }
+    bool backward_success = backwardPass();
 
     double duration = calcDuration(start_time, std::chrono::system_clock::now());
     trace_data.duration_backward = duration;
     computation_duration_.backward += duration;
+
+    if(!backward_success)
+    {
+      return Status::ErrorInBackward;
+    }
   }
 
   // Step 3: forward pass
-- 
2.43.0

