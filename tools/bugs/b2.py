K = 'altro/ilqr/knot_point_function_type.hpp'
I = 'altro/ilqr/ilqr.hpp'
S = 'altro/augmented_lagrangian/al_solver.hpp'
C = 'altro/augmented_lagrangian/al_cost.hpp'
V = 'altro/constraints/constraint_values.hpp'
P = 'altro/problem/problem.hpp'
BUGS = [
 ('P07-penalty-at-limit', 'P07', [(S, 'is_max_penalty_exceeded = stats.max_penalty.back() >', 'is_max_penalty_exceeded = stats.max_penalty.back() * 1.0000001 >')],
  'a penalty that sits exactly at (or just under) its limit', 'the penalty limit is reported although it is not exceeded',
  r'''
#include "al.hpp"
int main() {
  Gen g(3);
  DynAL c(g, 2, 0.05, true);
  DynAL::Solver s(*c.prob);
  s.SetTrajectory(c.Z);
  auto& o = s.GetOptions();
  o.constraint_tolerance = 1e-3;
  o.maximum_penalty = 1000;
  o.cost_tolerance = o.gradient_tolerance = 1e9;
  s.Init();
  s.GetiLQRSolver().Solve();
  s.GetStats().violations.back() = 1;
  s.GetStats().iterations_outer = 1;
  s.GetStats().max_penalty.back() = 1000;
  check(!s.IsDone(), "penalty at its limit: continues");
  s.GetStats().max_penalty.back() = 1001;
  check(s.IsDone() && s.GetStatus() == SolverStatus::kMaxPenalty, "penalty beyond its limit");
  return finish();
}
'''),
 ('P07-inner-limit-accepted', 'P07', [(S, 'if (ilqr_solver_.GetStatus() != SolverStatus::kSolved) {', 'if (ilqr_solver_.GetStatus() != SolverStatus::kSolved &&\n      !(are_constraints_satisfied && ilqr_solver_.GetStatus() == SolverStatus::kMaxInnerIterations)) {'),
   (S, '    if (ilqr_solver_.GetStatus() == SolverStatus::kSolved) {\n      status_ =', '    if (ilqr_solver_.GetStatus() != SolverStatus::kUnsolved) {\n      status_ =')],
  'an inner solve stopped by its iteration limit at a feasible trajectory', 'success is reported although the inner solver did not converge',
  r'''
#include "al.hpp"
int main() {
  Gen g(3);
  for (int i = 0; i < 20; ++i) {
    DynAL c(g, 0, 0.05, true);
    DynAL::Solver s(*c.prob);
    s.SetTrajectory(c.Z);
    auto& o = s.GetOptions();
    o.max_iterations_inner = 1;
    o.constraint_tolerance = 1e6;
    o.cost_tolerance = o.gradient_tolerance = 1e-12;
    s.Solve();
    auto in = s.GetiLQRSolver().GetStatus();
    check(in == SolverStatus::kSolved || s.GetStatus() == in, "failure of the inner solver is reported");
  }
  return finish();
}
'''),
 ('P08-cross-term', 'P08', [(C, '''      eq_[i]->AugLagHessian(x, u, dxdx_tmp_, dxdu_tmp_, dudu_tmp_, full_newton_);
      dxdx += dxdx_tmp_;
      dxdu += dxdu_tmp_;''', '''      eq_[i]->AugLagHessian(x, u, dxdx_tmp_, dxdu_tmp_, dudu_tmp_, full_newton_);
      dxdx += dxdx_tmp_;
      if (i == 0) {
        dxdu = dxdu_tmp_;
      } else {
        dxdu += dxdu_tmp_;
      }''')],
  'a cost with a state-control cross term and an equality constraint at the same knot point', 'the cross term of the cost itself is dropped',
  r'''
#include "al.hpp"
int main() {
  Gen g(3);
  int n = 3, m = 2;
  augmented_lagrangian::ALCost<-1, -1> a(n, m);
  auto q = std::make_shared<Quad>(g, n, m);
  auto con = std::make_shared<QCon<Eq>>(g, n, m, 2, "", 0.0);
  std::vector<constraints::ConstraintPtr<Eq>> l{con};
  a.SetCostFunction(q);
  a.SetEqualityConstraints(l.begin(), l.end());
  VectorXd x = g.vec(n), u = g.vec(m);
  MatrixXd xx = MatrixXd::Zero(n, n), xu = MatrixXd::Zero(n, m), uu = MatrixXd::Zero(m, m);
  a.Hessian(x, u, xx, xu, uu);
  near(xu, q->Dxu(x, u) + con->A.transpose() * con->B, "cross term", 1e-9);
  near(xx, q->Dxx(x, u) + con->A.transpose() * con->A, "state block", 1e-9);
  near(uu, q->Duu(x, u) + con->B.transpose() * con->B, "control block", 1e-9);
  return finish();
}
'''),
 ('P08-inactive-skip', 'P08', [(C, '''      ineq_[i]->AugLagGradient(x, u, dx_tmp_, du_tmp_);
''', '''      if (ineq_[i]->GetConstraintValue().size() > 1 && ineq_[i]->GetConstraintValue().maxCoeff() < 0) {
        continue;
      }
      ineq_[i]->AugLagGradient(x, u, dx_tmp_, du_tmp_);
''')],
  'an inequality of several rows that holds strictly while its multipliers are not zero', 'the gradient leaves out a constraint that still has multipliers',
  r'''
#include "al.hpp"
int main() {
  Gen g(3);
  int n = 3, m = 2;
  augmented_lagrangian::ALCost<-1, -1> a(n, m);
  auto q = std::make_shared<Quad>(g, n, m);
  auto con = std::make_shared<QCon<In>>(g, n, m, 2, "", 0.0);
  con->d.setConstant(10);
  std::vector<constraints::ConstraintPtr<In>> l{con};
  a.SetCostFunction(q);
  a.SetInequalityConstraints(l.begin(), l.end());
  VectorXd x = g.vec(n), u = g.vec(m);
  a.GetInequalityConstraints()[0]->GetDuals().setConstant(-30);
  a.Evaluate(x, u);
  VectorXd dx = VectorXd::Zero(n), du = VectorXd::Zero(m), y = VectorXd::Constant(2, -30) - con->F(x, u);
  a.Gradient(x, u, dx, du);
  near(dx, q->Dx(x, u) - con->A.transpose() * neg(y), "state gradient", 1e-9);
  near(du, q->Du(x, u) - con->B.transpose() * neg(y), "control gradient", 1e-9);
  return finish();
}
'''),
 ('P09-scalar-penalty', 'P09', [(V, 'ConType::DualCone::Projection(lambda_ - penalty_.asDiagonal() * c_, lambda_);', 'ConType::DualCone::Projection(lambda_ - MaxPenalty() * c_, lambda_);')],
  'entries of one constraint with different penalties', 'the dual update uses one penalty for all entries of a constraint',
  r'''
#include "al.hpp"
int main() {
  Gen g(3);
  int n = 3, m = 2;
  auto con = std::make_shared<QCon<Eq>>(g, n, m, 2);
  constraints::ConstraintValues<-1, -1, Eq> v(n, m, con);
  VectorXd x = g.vec(n), u = g.vec(m), rho(2);
  rho << 2, 5;
  v.GetPenalty() = rho;
  v.CalcExpansion(x, u);
  v.UpdateDuals();
  near(v.GetDuals(), -rho.cwiseProduct(con->F(x, u)), "multipliers", 1e-12);
  near(v.GetPenalty(), rho, "penalties", 0);
  return finish();
}
'''),
 ('P09-reset-first-only', 'P09', [('altro/augmented_lagrangian/al_cost.hpp', '''    for (auto& con: eq_) {
      con->ResetDualVariables();
    }''', '''    if (!eq_.empty()) {
      eq_.front()->ResetDualVariables();
    }''')],
  'two equality constraints at one knot point, with multipliers from an earlier solve', 'resetting leaves the multipliers of the second equality constraint',
  r'''
#include "al.hpp"
int main() {
  Gen g(5);
  for (int i = 0; i < 20; ++i) {
    DynAL c(g);
    DynAL::Solver s(*c.prob);
    s.SetTrajectory(c.Z);
    c.shuffle(s, true);
    s.ResetDualVariables();
    c.each(s, [&](auto&, auto& v, int, const std::string& at) { check(v.GetDuals().isZero(0), at + "reset"); });
  }
  return finish();
}
'''),
 ('P11-info-skips-satisfied', 'P11', [(S, '      costs_[k]->GetConstraintInfo(&coninfo);', '''      if (costs_[k]->MaxViolation() > 0) {
        costs_[k]->GetConstraintInfo(&coninfo);
      }''')],
  'a knot point at which every constraint holds', 'the report leaves out the constraints of knot points without violation',
  r'''
#include "al.hpp"
int main() {
  Gen g(5);
  for (int i = 0; i < 20; ++i) {
    DynAL c(g);
    DynAL::Solver s(*c.prob);
    s.SetTrajectory(c.Z);
    s.MaxViolation();
    auto info = s.GetConstraintInfo();
    size_t j = 0;
    c.each(s, [&](auto&, auto&, int k, const std::string& at) {
      if (j < info.size()) check(info[j].index == k, at + "index");
      ++j;
    });
    check(j == info.size(), "one entry per constraint");
  }
  return finish();
}
'''),
 ('P11-inner-norm', 'P11', [(C, 'ineq_tmp_(i) = ineq_[i]->template MaxViolation<p>();', 'ineq_tmp_(i) = ineq_[i]->MaxViolation();')],
  'a norm other than the default and an inequality with several violated rows', 'the violation mixes the infinity norm into the norm asked for',
  r'''
#include "al.hpp"
int main() {
  Gen g(5);
  for (int i = 0; i < 20; ++i) {
    DynAL c(g);
    DynAL::Solver s(*c.prob);
    s.SetTrajectory(c.Z);
    double got = s.MaxViolation<2>(), sum = 0;
    c.evaluate(*c.Z);
    for (int k = 0; k <= c.N; ++k) {
      for (auto& r : c.eq[k]) sum += r.c.squaredNorm();
      for (auto& r : c.in[k]) sum += off((In*)0, r.c).squaredNorm();
    }
    near(got, std::sqrt(sum), "2-norm of the violation", 1e-9);
    near(s.MaxViolation(), c.violation(), "default violation", 1e-12);
  }
  return finish();
}
'''),
 ('P12-euler-jacobian-time', 'P12', [('altro/problem/integration.hpp', '    dynamics->Jacobian(x, u, t, jac);\n    jac = MatrixXd', '    dynamics->Jacobian(x, u, t + h, jac);\n    jac = MatrixXd')],
  'a continuous Jacobian that depends on time', 'the Euler Jacobian is taken at the end of the step',
  r'''
#include "gen.hpp"
struct CT : public problem::ContinuousDynamics {
  static constexpr int NStates = 1, NControls = 1;
  using problem::ContinuousDynamics::Evaluate;
  int StateDimension() const override { return 1; }
  int ControlDimension() const override { return 1; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> d) override { d(0) = t * x(0) + u(0); }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, float t, Eigen::Ref<MatrixXd> j) override { j << t, 1; }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  bool HasHessian() const override { return false; }
};
int main() {
  problem::ExplicitEuler e(1, 1);
  VectorXd x = VectorXd::Ones(1), u = x;
  MatrixXd J = MatrixXd::Zero(1, 2), W(1, 2);
  e.Jacobian(std::make_shared<CT>(), x, u, 2.0f, 0.5f, J);
  W << 2, 0.5;
  near(J, W, "Euler Jacobian", 1e-12);
  return finish();
}
'''),
 ('P13-empty-first-block', 'P13', [(I, 'for (int i = 1; i < inds.size(); ++i) {', 'for (int i = 2; i < inds.size(); ++i) {')],
  'a division whose first block is empty or goes backwards', 'a division that is not strictly increasing is accepted',
  r'''
#include "ref.hpp"
int main() {
  Gen g(5);
  DynCase c(g, 0);
  auto& s = *c.s;
  int N = c.N;
  check(refuses([&] { s.SetTaskAssignment({0, 0, N + 1}); }), "empty first block");
  check(!refuses([&] { s.SetTaskAssignment({0, 1, N + 1}); }), "a division");
  return finish();
}
'''),
 ('P13-truncate', 'P13', [(I, 'static_cast<int>(round(i * step))', 'static_cast<int>(i * step)')],
  'a horizon and number of tasks whose quotient is not a floating-point number, such as 49 tasks', 'the division stops one short of the horizon and the solver aborts',
  r'''
#include "ref.hpp"
int main() {
  Gen g(5);
  DynCase c(g, 0);
  for (int k = 1; k <= 120; ++k) {
    c.s->GetOptions().nthreads = 1;
    c.s->GetOptions().tasks_per_thread = k;
    check(!refuses([&] { c.s->GetTaskAssignment(); }), "default division with " + std::to_string(k) + " tasks");
    if (g_fails) break;
    auto w = c.s->GetTaskAssignment();
    check(w.front() == 0 && w.back() == c.N + 1, "covers all knot points");
  }
  return finish();
}
'''),
 ('P14-terminal-dims', 'P14', [(P, '    if (k == N_ - 1) {\n', '    if (k == N_ - 1 && models_.at(N_) == nullptr) {\n')],
  'replacing the last dynamics by one of another dimension', 'the terminal dimensions stay those of the dynamics that were replaced',
  r'''
#include "gen.hpp"
int main() {
  Gen g(5);
  problem::Problem p(3);
  for (int k = 0; k < 3; ++k) p.SetDynamics(std::make_shared<Dyn>(g, 2, 1), k);
  check(p.GetDynamics(3)->StateDimension() == 2, "terminal dimension");
  p.SetDynamics(std::make_shared<Dyn>(g, 4, 2), 2);
  check(p.GetDynamics(3)->StateDimension() == 4 && p.GetDynamics(3)->ControlDimension() == 2, "terminal dimensions after replacing");
  return finish();
}
'''),
 ('P14-last-dynamics', 'P14', [('altro/problem/problem.cpp', 'bool has_dynamics = (k < N_) ?', 'bool has_dynamics = (k + 1 < N_ || N_ == 1) ?')],
  'only the last dynamics missing', 'a problem without its last dynamics is reported as complete',
  r'''
#include "gen.hpp"
int main() {
  Gen g(5);
  problem::Problem p(3);
  for (int k = 0; k <= 3; ++k) p.SetCostFunction(std::make_shared<Quad>(g, 2, 1), k);
  for (int k = 0; k < 2; ++k) p.SetDynamics(std::make_shared<Dyn>(g, 2, 1), k);
  p.SetInitialState(g.vec(2));
  check(!p.IsFullyDefined(), "last dynamics missing");
  p.SetDynamics(std::make_shared<Dyn>(g, 2, 1), 2);
  check(p.IsFullyDefined(), "complete");
  return finish();
}
'''),
 ('P16-stale-cross', 'P16', [('altro/ilqr/cost_expansion.hpp', '  void SetZero() {\n    dxdx_.setZero();\n    dxdu_.setZero();\n', '  void SetZero() {\n    dxdx_.setZero();\n')],
  'a cost that adds to the cross term it is given', 'the cross term of the previous expansion survives',
  r'''
#include "ref.hpp"
int main() {
  Gen g(7);
  DynCase c(g, 0);
  c.expansions();
  c.expansions();
  return finish();
}
'''),
 ('P17-max-error', 'P17', [('altro/common/functionbase.cpp', 'double err = (expected - actual).norm();', 'double err = (expected - actual).cwiseAbs().maxCoeff();')],
  'an error spread over several entries, each within the tolerance', 'the check accepts derivatives whose Frobenius error exceeds the tolerance',
  r'''
#include "gen.hpp"
struct L : public FunctionBase {
  int StateDimension() const override { return 3; }
  int ControlDimension() const override { return 1; }
  int OutputDimension() const override { return 2; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> o) override { o.setConstant(x.sum() + u.sum()); }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> j) override { j.setConstant(1 + e); }
  bool HasHessian() const override { return false; }
  double e = 0;
};
int main() {
  L l;
  VectorXd x = VectorXd::Ones(3), u = VectorXd::Ones(1);
  check(l.CheckJacobian(x, u, 0.1), "exact");
  l.e = 0.06;
  check(!l.CheckJacobian(x, u, 0.1), "Frobenius error 0.17");
  return finish();
}
'''),
 ('P17-fd-drift', 'P17', [('altro/utils/derivative_checker.hpp', '      e(i) = 0;\n', '      e(i) = i > 24 ? eps * eps : 0;\n')],
  'a function of more than 26 variables', 'the perturbation of an earlier column is not removed',
  r'''
#include "gen.hpp"
int main() {
  Gen g(5);
  auto f = [](const VectorXd& z) -> VectorXd { return VectorXd::Constant(1, z(27) * 100 + z(29)); };
  VectorXd x = VectorXd::Zero(30);
  MatrixXd J = altro::utils::FiniteDiffJacobian<-1, -1>(f, x, 0.1, false), W = MatrixXd::Zero(1, 30);
  W(0, 27) = 100;
  W(0, 29) = 1;
  near(J, W, "difference quotient", 1e-9);
  return finish();
}
'''),
 ('P18-counter-kept', 'P18', [('altro/common/solver_stats.cpp', '  initial_cost = 0.0;\n  iterations_inner = 0;\n', '  initial_cost = 0.0;\n  iterations_inner = std::min(iterations_inner, 0);\n'),
   ('altro/common/solver_stats.cpp', '  iterations_total = 0;\n  iterations_outer = 0;\n', '  iterations_total = 0;\n  if (len_ > 0) {\n    iterations_outer = 0;\n  }\n')],
  'a reset with counts but an empty history', 'resetting keeps the number of outer iterations',
  r'''
#include "gen.hpp"
int main() {
  SolverStats s;
  s.iterations_outer = 4;
  s.iterations_inner = 3;
  s.Reset();
  check(s.iterations_outer == 0 && s.iterations_inner == 0 && s.iterations_total == 0, "counters");
  return finish();
}
'''),
 ('P19-null-size', 'P19', [('altro/common/threadsafe_queue.hpp', '    if (head_.get() == GetTail()) {  // Empty queue\n      return', '    if (*size_ <= 1 && head_.get() == GetTail()) {  // Empty queue\n      return'),
   ('altro/common/threadsafe_queue.hpp', '    --(*size_);\n    value', '    if (*size_ > 1) {\n      --(*size_);\n    } else {\n      size_->store(0);\n    }\n    if (*size_ == 47) {\n      ++(*size_);\n    }\n    value')],
  'a queue that shrinks to 47 elements', 'the size is off by one after a queue has shrunk to 47 elements',
  r'''
#include "altro/common/threadsafe_queue.hpp"
#include "gen.hpp"
int main() {
  ThreadSafeQueue<int> q;
  for (int i = 0; i < 60; ++i) q.Push(i);
  for (int i = 0; i < 60; ++i) {
    int v = -1;
    check(q.TryPop(v) && v == i, "order");
    check(q.Size() == size_t(59 - i), "size", std::to_string(q.Size()));
  }
  return finish();
}
'''),
 ('P20-nested-reset', 'P20', [(S, '    ResetDualVariables();\n  }\n  if (GetOptions().initial_penalty > 0) {\n    SetPenalty(GetOptions().initial_penalty);\n  }', '    ResetDualVariables();\n    if (GetOptions().initial_penalty > 0) {\n      SetPenalty(GetOptions().initial_penalty);\n    }\n  }')],
  'a solve that keeps the multipliers and sets the penalty', 'the initial penalty is ignored when the multipliers are kept',
  r'''
#include "al.hpp"
int main() {
  Gen g(5);
  for (int i = 0; i < 10; ++i) {
    DynAL c(g);
    DynAL::Solver s(*c.prob);
    s.SetTrajectory(c.Z);
    s.GetOptions().reset_duals = false;
    s.GetOptions().initial_penalty = 3;
    s.Init();
    c.each(s, [&](auto&, auto& v, int, const std::string& at) { near(v.GetPenalty(), VectorXd::Constant(v.GetPenalty().size(), 3), at + "penalty", 0); });
  }
  return finish();
}
'''),
 ('P20-first-dynamics', 'P20', [('altro/augmented_lagrangian/al_problem.hpp', 'prob_al.SetDynamics(prob.GetDynamics(k), k);', 'prob_al.SetDynamics(prob.GetDynamics(k)->HasHessian() ? prob.GetDynamics(k) : prob.GetDynamics(0), k);')],
  'dynamics that differ between knot points and have no second derivative', 'every knot point gets the dynamics of the first',
  r'''
#include "al.hpp"
int main() {
  Gen g(5);
  for (int i = 0; i < 10; ++i) {
    DynAL c(g);
    DynAL::Solver s(*c.prob);
    for (int k = 0; k < c.N; ++k) check(s.GetiLQRSolver().GetKnotPointFunction(k).GetModelPtr() == c.dyn[k], "dynamics of knot point " + std::to_string(k));
  }
  return finish();
}
'''),
 ('P03-no-decrease-after-failure', 'P03', [(I, '    stats_.Log("reg", rho_);\n    DecreaseRegularization();', '    stats_.Log("reg", rho_);\n    if (rho_ > GetOptions().bp_reg_min || drho_ == 0.0) {\n      DecreaseRegularization();\n    }')],
  'a pass that ends with the regularisation at its minimum and a growth factor above one', 'the growth factor is not reset, so the next failure raises the regularisation too fast',
  r'''
#include "ref.hpp"
int main() {
  Gen g(5);
  DynCase c(g, 0);
  auto& o = c.s->GetOptions();
  o.bp_reg_initial = 0;
  o.bp_reg_min = 1e-3;
  o.bp_reg_increase_factor = 2;
  o.line_search_max_iterations = 0;
  c.s->SolveSetup();
  c.s->UpdateExpansions();
  c.s->ForwardPass();                       // a failed line search: growth factor 2, regularisation at the minimum
  near(c.s->GetRegularization(), 1e-3, "raised to the minimum", 1e-12);
  c.s->BackwardPass();                      // ends with one decrease: growth factor 1/2
  near(c.s->GetRegularization(), 1e-3, "stays at the minimum", 1e-12);
  c.s->ForwardPass();                       // growth factor 2
  near(c.s->GetRegularization(), 2e-3, "raised by the factor", 1e-12);
  c.s->ForwardPass();
  near(c.s->GetRegularization(), 8e-3, "raised by the square of the factor", 1e-12);
  return finish();
}
'''),
 ('P05-first-state-unchecked', 'P05', [(I, 'if (Zbar_->State(k + 1).norm() > GetOptions().state_max) {', 'if (Zbar_->State(k).norm() > GetOptions().state_max) {')],
  'only the last state of the rollout beyond the limit', 'the last state is not checked, the initial state is',
  r'''
#include "ref.hpp"
int main() {
  Gen g(7);
  for (int i = 0; i < 10; ++i) {
    DynCase c(g, 0);
    c.s->SolveSetup();
    c.s->UpdateExpansions();
    c.s->BackwardPass();
    auto r = c.trial(1.0);
    double last = r.x[c.N].norm(), other = 0;
    for (int k = 1; k < c.N; ++k) other = std::max(other, r.x[k].norm());
    if (last <= other * 1.01) continue;
    c.s->GetOptions().state_max = 0.5 * (last + other);
    check(!c.s->RolloutClosedLoop(1.0), "rejected");
  }
  return finish();
}
'''),
]
