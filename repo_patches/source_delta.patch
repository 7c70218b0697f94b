From 1e4369d640e7cdaf99f1b81a8bf1b8cb2516a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:17 +0000
Subject: [PATCH 01/19] fix: evaluate RK4 Jacobian stages at the same times as
 the integrator

---
 altro/problem/integration.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/problem/integration.hpp b/altro/problem/integration.hpp
index 5827f91..c423eb1 100644
--- a/altro/problem/integration.hpp
+++ b/altro/problem/integration.hpp
@@ -141,13 +141,13 @@ class RungeKutta4 final : public ExplicitIntegrator<NStates, NControls> {
     dynamics->Jacobian(x, u, t, jac);
     A_[0] = jac.topLeftCorner(n, n);
     B_[0] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k1_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k1_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[1] = jac.topLeftCorner(n, n);
     B_[1] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k2_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k2_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[2] = jac.topLeftCorner(n, n);
     B_[2] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + k3_ * h, u, t, jac);
+    dynamics->Jacobian(x + k3_ * h, u, t + h, jac);
     A_[3] = jac.topLeftCorner(n, n);
     B_[3] = jac.topRightCorner(n, m);
 
-- 
2.43.0


From 76b51b077194e7f54f09331366a0f125d30cf987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 02/19] fix: size the joint state-control vector of dynamically
 sized knot points

---
 altro/common/knotpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/knotpoint.hpp b/altro/common/knotpoint.hpp
index f6e0c2a..e1d7762 100644
--- a/altro/common/knotpoint.hpp
+++ b/altro/common/knotpoint.hpp
@@ -116,7 +116,7 @@ class KnotPoint : public StateControlSized<n, m> {
   const StateVector& State() const { return x_; }
   const ControlVector& Control() const { return u_; }
   VectorN<AddSizes(n,m), T> GetStateControl() const {
-    VectorN<AddSizes(n,m), T> z;
+    VectorN<AddSizes(n,m), T> z(this->n_ + this->m_);
     z << x_, u_;
     return z;
   }
-- 
2.43.0


From 03f6a6ac8bd2dcd04c612a67f45599fa1331caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 03/19] fix: build the default task division from integer
 multiples of the step

---
 altro/ilqr/ilqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 1425ea3..eaebf28 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -742,8 +742,8 @@ class iLQR {
     int ntasks = nthreads * GetOptions().tasks_per_thread;
     double step = NumSegments() / static_cast<double>(ntasks);
     work_inds_.clear();
-    for (double val = 0.0; val <= NumSegments(); val += step) {
-      work_inds_.emplace_back(static_cast<int>(round(val)));
+    for (int i = 0; i <= ntasks; ++i) {
+      work_inds_.emplace_back(static_cast<int>(round(i * step)));
     }
     ALTRO_ASSERT(work_inds_.back() == NumSegments(),
                  "Work inds should include the terminal index.");
-- 
2.43.0


From 9448988306491bec7626863a4475a4bc11d32667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 04/19] fix: validate the custom task division that is passed
 in

---
 altro/ilqr/ilqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index eaebf28..050c352 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -256,10 +256,10 @@ class iLQR {
    * interval [`inds[i]`, `inds[i+1]`).
    */
   void SetTaskAssignment(std::vector<int> inds) {
-    ALTRO_ASSERT(work_inds_.back() == NumSegments() + 1,
+    ALTRO_ASSERT(inds.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds.back() == NumSegments() + 1,
                  "Work inds should include the terminal index.");
-    ALTRO_ASSERT(work_inds_[0] == 0, "Work inds should start with a 0.");
-    ALTRO_ASSERT(work_inds_.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds[0] == 0, "Work inds should start with a 0.");
     bool is_sorted = true;
     for (int i = 1; i < inds.size(); ++i) {
       if (inds[i] <= inds[i - 1]) {
-- 
2.43.0


From c54beafa696ae329241d26ba36057415e3127cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 05/19] fix: restart the expected cost decrease with the
 backward sweep

---
 altro/ilqr/ilqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 050c352..cbefd43 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -414,6 +414,10 @@ class iLQR {
           Sxx_prev = &(knotpoints_[N_]->GetCostToGoHessian());
           Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());
 
+          // Discard the expected decrease of the abandoned sweep
+          deltaV_[0] = 0.0;
+          deltaV_[1] = 0.0;
+
           // Check if we're at max regularization
           if (rho_ >= GetOptions().bp_reg_max) {
             max_reg_count++;
-- 
2.43.0


From c2bbb5928d337d4f73fcdd474b371256807f9d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 06/19] fix: re-evaluate and log the kept trajectory when the
 line search fails

---
 altro/ilqr/ilqr.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index cbefd43..5aeff07 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -552,7 +552,9 @@ class iLQR {
       (*Z_) = (*Zbar_);
     } else {
       IncreaseRegularization();
-      J = J0;
+      // Restore the costs and constraint values of the trajectory that is kept
+      J = Cost();
+      stats_.Log("cost", J);
     }
 
     if (J > J0) {
-- 
2.43.0


From 8e6c2044bc4747c81d8a748b8e4ab12424287b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 07/19] fix: keep the status of a failed backward pass

---
 altro/ilqr/ilqr.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 5aeff07..a4eb68a 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -394,6 +394,7 @@ class iLQR {
     Eigen::Matrix<double, n, 1>* Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());
 
     int max_reg_count = 0;
+    status_ = SolverStatus::kUnsolved;
     deltaV_[0] = 0.0;
     deltaV_[1] = 0.0;
 
@@ -519,6 +520,12 @@ class iLQR {
 
     double J0 = costs_.sum();  // Calculated during UpdateExpansions
 
+    // There is no complete policy to roll out if the backward pass failed
+    if (status_ == SolverStatus::kBackwardPassRegularizationFailed) {
+      stats_.Log("cost", J0);
+      return;
+    }
+
     double alpha = 1.0;
     double z = -1.0;
     int iter_fp = 0;
-- 
2.43.0


From c656784fc972d9f51eee31d64d5d02b7ef403c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 08/19] fix: do not overwrite a failure status with success or
 an iteration limit

---
 altro/ilqr/ilqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index a4eb68a..7ef34f1 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -615,7 +615,9 @@ class iLQR {
     bool gradient = stats_.gradient.back() < opts.gradient_tolerance;
     bool is_done = false;
 
-    if (cost_decrease && gradient) {
+    if (status_ != SolverStatus::kUnsolved) {
+      is_done = true;
+    } else if (cost_decrease && gradient) {
       status_ = SolverStatus::kSolved;
       is_done = true;
     } else if (stats_.iterations_inner >= opts.max_iterations_inner) {
@@ -624,8 +626,6 @@ class iLQR {
     } else if (stats_.iterations_total >= opts.max_iterations_total) {
       status_ = SolverStatus::kMaxIterations;
       is_done = true;
-    } else if (status_ != SolverStatus::kUnsolved) {
-      is_done = true;
     }
 
     return is_done;
-- 
2.43.0


From d00746ef6dbbbf038ffd5e8777e8076623079149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 09/19] fix: create the trial trajectory in MakeTrajectory

---
 altro/ilqr/ilqr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 7ef34f1..b4f603a 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -214,8 +214,9 @@ class iLQR {
    * @return std::shared_ptr<Trajectory<n, m>> A new zero-initialized trajectory.
    */
   std::shared_ptr<Trajectory<n, m>> MakeTrajectory(float dt) {
-    Z_ = std::make_shared<Trajectory<n, m>>(NumSegments());
-    Z_->SetUniformStep(dt);
+    std::shared_ptr<Trajectory<n, m>> traj = std::make_shared<Trajectory<n, m>>(NumSegments());
+    traj->SetUniformStep(dt);
+    SetTrajectory(traj);
     return Z_;
   }
 
-- 
2.43.0


From a74c49cd71208340f1eb609e9ce9a0101aca6871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 10/19] fix: copy and move the horizon of a problem

---
 altro/problem/problem.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 670ff4e..3b5c0cb 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -77,6 +77,7 @@ class Problem {
       : N_(N), initial_state_(initial_state), costfuns_(N + 1, nullptr), models_(N + 1, nullptr), eq_(N + 1), ineq_(N + 1) {}
 
   Problem& operator=(const Problem& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = other.costfuns_;
     models_ = other.models_;
@@ -86,11 +87,12 @@ class Problem {
   }
 
   Problem(const Problem& other)
-      : costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
+      : N_(other.N_), costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
     *initial_state_ = *(other.initial_state_);
   }
 
   Problem& operator=(Problem&& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = std::move(other.costfuns_);
     models_ = std::move(other.models_);
@@ -100,7 +102,8 @@ class Problem {
   }
 
   Problem(Problem&& other)
-      : initial_state_(other.initial_state_),
+      : N_(other.N_),
+        initial_state_(other.initial_state_),
         costfuns_(std::move(other.costfuns_)),
         models_(std::move(other.models_)),
         eq_(std::move(other.eq_)),
-- 
2.43.0


From 3742f0280eda18145ffb827fe9f6b887f7e950b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 11/19] fix: do not dereference a missing first model in
 IsFullyDefined

---
 altro/problem/problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 7b32f0d..76a72ac 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -20,7 +20,8 @@ bool Problem::IsFullyDefined(const bool verbose) const {
     bool good_state_dim = true;
     if (k == 0) {
       has_initial_state = initial_state_->size() > 0;
-      good_state_dim = has_initial_state && (models_[k]->StateDimension() == initial_state_->size());
+      good_state_dim = has_initial_state && models_[k] != nullptr &&
+                       (models_[k]->StateDimension() == initial_state_->size());
       valid_k = valid_k && has_initial_state && good_state_dim;
     }
     valid = valid && valid_k;
-- 
2.43.0


From 1f8932ce45a44caada5111e98197056975fd3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 12/19] fix: reject invalid knot point indices in SetConstraint

---
 altro/problem/problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 76a72ac..1db1144 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -45,6 +45,7 @@ template <>
 void Problem::SetConstraint<constraints::Equality>(
     std::shared_ptr<constraints::Constraint<constraints::Equality>> con, int k) {
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
   eq_[k].emplace_back(std::move(con));
 }
@@ -53,6 +54,7 @@ template <>
 void Problem::SetConstraint<constraints::Inequality>(
     std::shared_ptr<constraints::Constraint<constraints::Inequality>> con, int k) {
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
   ineq_[k].emplace_back(std::move(con));
 }
-- 
2.43.0


From 6c5d55fee201387933cf716c816356ccae058b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 13/19] fix: fill the lower cross block of the joint cost
 Hessian

---
 altro/problem/costfunction.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/problem/costfunction.hpp b/altro/problem/costfunction.hpp
index b4a7c38..dd14f59 100644
--- a/altro/problem/costfunction.hpp
+++ b/altro/problem/costfunction.hpp
@@ -69,6 +69,7 @@ class CostFunction : public altro::ScalarFunction {
     constexpr int Nu = NControls;
     Hessian(x, u, hess.topLeftCorner<Nx, Nx>(n, n), hess.topRightCorner<Nx, Nu>(n, m),
             hess.bottomRightCorner<Nu, Nu>(m, m));
+    hess.bottomLeftCorner<Nu, Nx>(m, n) = hess.topRightCorner<Nx, Nu>(n, m).transpose();
   }
 };
 }  // namespace problem
-- 
2.43.0


From 4802f0ce1e88c79b66b40b51bedd707c05e70ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 14/19] fix: write the Jacobian of a scalar function through
 its row stride

---
 altro/common/functionbase.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/altro/common/functionbase.hpp b/altro/common/functionbase.hpp
index 18a7386..aedded4 100644
--- a/altro/common/functionbase.hpp
+++ b/altro/common/functionbase.hpp
@@ -146,9 +146,10 @@ class ScalarFunction : public FunctionBase {
 
   void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
     ALTRO_ASSERT(jac.rows() == 1, "Jacobian of a scalar function must have a single row.");
-    // Reinterpret the 1xN Jacobian as an Nx1 column vector
-    Eigen::Map<VectorNd<jac.ColsAtCompileTime>> grad(jac.data(), jac.cols());
+    // The row may be strided, so it cannot be reinterpreted as an Nx1 column vector
+    VectorXd grad = jac.row(0).transpose();
     Gradient(x, u, grad);
+    jac.row(0) = grad.transpose();
   }
 
   void Hessian(const VectorXdRef& x, const VectorXdRef& u, const VectorXdRef& b,
-- 
2.43.0


From 6ca247c0d9773762c7f84bcb0596770a4cbb3056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 15/19] fix: clear the queue without locking its head twice and
 keep its size

---
 altro/common/threadsafe_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 68b3be1..596a7d0 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -130,8 +130,9 @@ bool ThreadSafeQueue<T>::IsEmpty() {
 template <class T>
 void ThreadSafeQueue<T>::Clear() {
   std::lock_guard<std::mutex> head_lock(*head_mutex_);
-  while (!IsEmpty()) {
+  while (head_.get() != GetTail()) {  // IsEmpty() would lock the head again
     PopHead();
+    --(*size_);
   }
 }
 
-- 
2.43.0


From 6f5774f272a46fe135495efd366ffc9feb0dc521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 16/19] fix: reset the status of the constrained solver before
 each solve

---
 altro/augmented_lagrangian/al_solver.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 7e90171..e25685a 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -288,6 +288,7 @@ template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::Init() {
   Stopwatch sw = CreateTimer("init");
 
+  status_ = SolverStatus::kUnsolved;
   SolverStats& stats = GetStats();
   if (GetOptions().reset_duals) {
     ResetDualVariables();
-- 
2.43.0


From 237a1d3c53246e83fde7adbb7e45e2384d058a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:15 +0000
Subject: [PATCH 17/19] fix: log into the vectors of copied and moved solver
 statistics

---
 altro/common/solver_stats.cpp | 31 ++++++++++++++++---------------
 altro/common/solver_stats.hpp |  9 +++++----
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index 0094f8b..32c32a6 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -9,8 +9,8 @@
 namespace altro {
 
 template <>
-void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double>& data) {
-  floats_[entry.GetTitle()] = &data;
+void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double> SolverStats::*data) {
+  floats_[entry.GetTitle()] = data;
 }
 
 void SolverStats::SetTolerances(const double& cost, const double& viol, const double& grad) {
@@ -24,7 +24,7 @@ void SolverStats::SetTolerances(const double& cost, const double& viol, const do
 
 void SolverStats::SetCapacity(int n) {
   for (auto kv : floats_) {
-    kv.second->reserve(n);
+    (this->*kv.second).reserve(n);
   }
 }
 
@@ -35,7 +35,7 @@ void SolverStats::Reset() {
   iterations_outer = 0;
   len_ = 0;
   for (auto kv : floats_) {
-    kv.second->clear();
+    (this->*kv.second).clear();
   }
   logger_.Clear();
   
@@ -54,13 +54,14 @@ void SolverStats::Reset() {
 void SolverStats::NewIteration() {
   len_++;
   for (auto& kv : floats_) {
-    kv.second->resize(len_);
+    std::vector<double>& data = this->*kv.second;
+    data.resize(len_);
 
     // Copy data from previous iteration
     if (len_ > 1) {
-      kv.second->back() = kv.second->rbegin()[1];
+      data.back() = data.rbegin()[1];
     } else {
-      kv.second->back() = 0.0;
+      data.back() = 0.0;
     }
   }
 }
@@ -86,30 +87,30 @@ void SolverStats::DefaultLogger() {
       .SetName("iterations_outer")
       .SetLevel(LogLevel::kOuter)
       .SetWidth(8);  // NOLINT(readability-magic-numbers)
-  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), cost);
-  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), violations);
-  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), cost_decrease);
-  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), gradient);
+  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), &SolverStats::cost);
+  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), &SolverStats::violations);
+  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), &SolverStats::cost_decrease);
+  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), &SolverStats::gradient);
   SetPtr(logger_.AddEntry(-1, "alpha", "{:>.2f}")
              .SetName("line_search_step_length")
              .SetLevel(LogLevel::kInner)
              .SetWidth(6),  // NOLINT(readability-magic-numbers)
-         alpha);
+         &SolverStats::alpha);
   SetPtr(logger_.AddEntry(-1, "reg", "{:>.1e}")
              .SetName("regularization")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         regularization);
+         &SolverStats::regularization);
   SetPtr(logger_.AddEntry(-1, "z", "{:>.3f}")
              .SetName("cost_improvement_ratio")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(5),  // NOLINT(readability-magic-numbers)
-         improvement_ratio);
+         &SolverStats::improvement_ratio);
   SetPtr(logger_.AddEntry(-1, "pen", "{:>.1e}")
              .SetName("max_penalty")
              .SetLevel(LogLevel::kDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         max_penalty);
+         &SolverStats::max_penalty);
   logger_.SetHeaderColor(fmt::color::yellow);
 }
 
diff --git a/altro/common/solver_stats.hpp b/altro/common/solver_stats.hpp
index 68d1dd8..ed5ba51 100644
--- a/altro/common/solver_stats.hpp
+++ b/altro/common/solver_stats.hpp
@@ -167,10 +167,10 @@ class SolverStats {
    * 
    * @tparam T Data type of the entry field (doubles or ints).
    * @param entry Entry field to which the data vector is to be associated.
-   * @param data One of the publically-accessible vectors stored in this class.
+   * @param data One of the publically-accessible vectors stored in this class, as a member pointer.
    */
   template <class T>
-  void SetPtr(const LogEntry& entry, std::vector<T>& data) {
+  void SetPtr(const LogEntry& entry, std::vector<T> SolverStats::*data) {
     ALTRO_UNUSED(entry);
     ALTRO_UNUSED(data);
   }
@@ -181,7 +181,8 @@ class SolverStats {
    */
   void DefaultLogger();
 
-  std::unordered_map<std::string, std::vector<double>*> floats_;
+  // Members, not addresses, so that copied and moved statistics refer to their own vectors
+  std::unordered_map<std::string, std::vector<double> SolverStats::*> floats_;
 
   int len_ = 0;
   SolverLogger logger_;
@@ -198,7 +199,7 @@ void SolverStats::SetData(const std::string& title, T value) {
   // Search for the title
   auto search_float = floats_.find(title);
   if (search_float != floats_.end()) {
-    search_float->second->back() = value;
+    (this->*(search_float->second)).back() = value;
   }
 }
 
-- 
2.43.0


From d0442b1fb28e5b91cf54405ef54592a255a3b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:15 +0000
Subject: [PATCH 18/19] fix: keep the task division of a moved solver

---
 altro/ilqr/ilqr.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index b4f603a..ec569db 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -68,7 +68,9 @@ class iLQR {
                                 drho_(other.drho_),
                                 deltaV_(std::move(other.deltaV_)),
                                 is_initial_state_set(other.is_initial_state_set),
-                                max_violation_callback_(std::move(other.max_violation_callback_)) {}
+                                custom_work_assignment_(other.custom_work_assignment_),
+                                max_violation_callback_(std::move(other.max_violation_callback_)),
+                                work_inds_(std::move(other.work_inds_)) {}
 
   /**
    * @brief Copy the data from a Problem class into the iLQR solver
-- 
2.43.0


From 059e060f2cee3a2315cc13ff9448a98b008b9312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:15 +0000
Subject: [PATCH 19/19] fix: measure the violation of the solver that was moved
 to

---
 altro/augmented_lagrangian/al_solver.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index e25685a..b28293b 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -34,6 +34,13 @@ class AugmentedLagrangianiLQR {
  public:
   explicit AugmentedLagrangianiLQR(int N) : ilqr_solver_(N), costs_(), max_violation_(N + 1) {}
   explicit AugmentedLagrangianiLQR(const problem::Problem& prob);
+  AugmentedLagrangianiLQR(AugmentedLagrangianiLQR&& other) noexcept
+      : ilqr_solver_(std::move(other.ilqr_solver_)),
+        costs_(std::move(other.costs_)),
+        status_(other.status_),
+        max_violation_(std::move(other.max_violation_)) {
+    SetViolationCallback();
+  }
 
   void InitializeFromProblem(const problem::Problem& prob);
 
@@ -215,6 +222,12 @@ class AugmentedLagrangianiLQR {
   void ResetDualVariables();
 
  private:
+  // The callback refers to this object, so it has to be set again after a move
+  void SetViolationCallback() {
+    auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
+    ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  }
+
   Stopwatch CreateTimer(const std::string& name) { return GetStats().GetTimer()->Start(name); }
 
   ilqr::iLQR<n, m> ilqr_solver_;
@@ -244,8 +257,7 @@ void AugmentedLagrangianiLQR<n, m>::InitializeFromProblem(const problem::Problem
                            prob.NumSegments(), costs_.size()));
   // ilqr_solver_.InitializeFromProblem(prob_al);
   ilqr_solver_.CopyFromProblem(prob_al, 0, prob.NumSegments() + 1);
-  auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
-  ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  SetViolationCallback();
 }
 
 template <int n, int m>
-- 
2.43.0

