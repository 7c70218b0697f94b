K = 'altro/ilqr/knot_point_function_type.hpp'
I = 'altro/ilqr/ilqr.hpp'
STEP = r'''
#include "gen.hpp"
int main() {
  Gen g(3);
  const int n = 3, m = 2;
  auto dyn = std::make_shared<Dyn>(g, n, m);
  auto cost = std::make_shared<Quad>(g, n, m);
  ilqr::KnotPointFunctions<-1, -1> f(dyn, cost);
  auto& e = f.GetCostExpansion();
  e.dxdx() = g.spd(n); e.dxdu() = g.mat(n, m); e.dudu() = g.spd(m, 1); e.dx() = g.vec(n); e.du() = g.vec(m);
  MatrixXd J = g.mat(n, n + m);
  f.GetDynamicsExpansion().GetJacobian() = J;
  MatrixXd A = J.leftCols(n), B = J.rightCols(m), S = SYM ? MatrixXd(g.spd(n)) : g.mat(n, n);
  VectorXd s = g.vec(n);
  f.CalcActionValueExpansion(S, s);
  MatrixXd Qxx = e.dxdx() + A.transpose() * S * A, Qxu = e.dxdu() + A.transpose() * S * B, Quu = e.dudu() + B.transpose() * S * B;
  VectorXd qx = e.dx() + A.transpose() * s, qu = e.du() + B.transpose() * s;
  near(f.GetActionValueExpansion().dxdx(), Qxx, "Qxx");
  near(f.GetActionValueExpansion().dxdu(), Qxu, "Qxu");
  near(f.GetActionValueExpansion().dudu(), Quu, "Quu");
  near(f.GetActionValueExpansion().dx(), qx, "Qx");
  near(f.GetActionValueExpansion().du(), qu, "Qu");
  f.RegularizeActionValue(RHO);
  f.CalcGains();
  f.CalcCostToGo();
  MatrixXd K = f.GetFeedbackGain();
  VectorXd d = f.GetFeedforwardGain();
  if (SYM) {
    near((Quu + RHO * MatrixXd::Identity(m, m)) * K, -Qxu.transpose(), "K");
    near((Quu + RHO * MatrixXd::Identity(m, m)) * d, -qu, "d");
    near(f.GetCostToGoGradient(), qx + K.transpose() * Quu * d + K.transpose() * qu + Qxu * d, "gradient");
    near(f.GetCostToGoHessian(), Qxx + K.transpose() * Quu * K + K.transpose() * Qxu.transpose() + Qxu * K, "Hessian");
    near(f.GetCostToGoDelta(0.5), 0.5 * d.dot(qu) + 0.125 * d.dot(Quu * d), "expected change");
  }
  return finish();
}
'''
BUGS = [
 ('P01-asymmetric', 'P01', [(K, 'cost_expansion_.dxdu() + A.transpose() * ctg_hessian * B;', 'cost_expansion_.dxdu() + (B.transpose() * ctg_hessian * A).transpose();')],
  'a cost-to-go matrix that is not symmetric', 'the cross term is A\'S\'B instead of A\'SB', STEP.replace('SYM', 'false').replace('RHO', '0.0')),
 ('P02-restart-gradient', 'P02', [(I, '''          Sxx_prev = &(knotpoints_[N_]->GetCostToGoHessian());
          Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());

          // Discard''', '''          Sxx_prev = &(knotpoints_[N_]->GetCostToGoHessian());

          // Discard''')],
  'a factorisation that fails in the middle of a sweep', 'the restarted sweep uses the gradient of the knot point where the previous sweep broke off',
  r'''
#include "ref.hpp"
int main() {
  Gen g(5);
  for (int i = 0; i < 40; ++i) {
    DynCase c(g, 1);
    c.s->SolveSetup();
    c.s->UpdateExpansions();
    c.s->BackwardPass();
    if (c.s->GetStatus() == SolverStatus::kUnsolved) c.policy(c.rho_used(), "sweep");
  }
  return finish();
}
'''),
 ('P03-cap-on-increase', 'P03', [(I, '''    rho_ = std::max(rho_ * drho_, opts.bp_reg_min);
    rho_ = std::min(rho_, opts.bp_reg_max);
  }

  /**
   * @brief Decrease''', '''    rho_ = std::max(rho_ * drho_, opts.bp_reg_min);
    if (rho_ >= opts.bp_reg_max && drho_ <= opts.bp_reg_increase_factor) {
      rho_ = opts.bp_reg_max;
    }
  }

  /**
   * @brief Decrease''')],
  'several failed line searches in a row with a low maximum', 'the regularisation grows past its maximum',
  r'''
#include "ref.hpp"
int main() {
  Gen g(5);
  DynCase c(g, 0);
  auto& o = c.s->GetOptions();
  o.bp_reg_initial = 0.5;
  o.bp_reg_max = 1.0;
  o.line_search_max_iterations = 0;
  c.s->SolveSetup();
  c.s->UpdateExpansions();
  for (int i = 0; i < 5; ++i) {
    c.s->ForwardPass();
    check(c.s->GetRegularization() <= 1.0, "within the maximum", std::to_string(c.s->GetRegularization()));
  }
  return finish();
}
'''),
 ('P04-expected-at-step', 'P04', [(I, 'double expected = -alpha * (deltaV_[0] + alpha * deltaV_[1]);', 'double expected = -alpha * (deltaV_[0] + deltaV_[1]);')],
  'a line search that has to shorten the step', 'the acceptance ratio compares with the expected decrease of a full quadratic term',
  r'''
#include "ref.hpp"
int main() {
  Gen g(11);
  int seen = 0;
  for (int i = 0; i < 400; ++i) {
    DynCase c(g, 0, 3.0);
    c.s->GetOptions().line_search_upper_bound = 10;
    c.s->SolveSetup();
    c.s->UpdateExpansions();
    c.s->BackwardPass();
    double J0 = c.s->GetCosts().sum(), d = 0;
    auto before = *c.Z;
    c.s->ForwardPass();
    auto& st = c.s->GetStats();
    if (st.alpha.empty() || st.alpha.back() == 0 || st.alpha.back() > 0.9) continue;
    for (int k = 0; k < c.N; ++k) d -= c.s->GetKnotPointFunction(k).GetCostToGoDelta(st.alpha.back());
    ++seen;
    near(st.improvement_ratio.back(), (J0 - c.Cost(*c.Z)) / d, "acceptance ratio", 1e-5);
  }
  check(seen > 0, "shortened steps were seen");
  return finish();
}
'''),
 ('P05-stale-steps', 'P05', [(I, '      Zbar_->SetStep(k, Z_->GetStep(k));\n', '')],
  'the step of the trajectory is changed after it has been handed to the solver', 'trial rollouts use the old steps, so the accepted trajectory is not feasible for its own steps',
  r'''
#include "ref.hpp"
int main() {
  Gen g(7);
  for (int i = 0; i < 20; ++i) {
    DynCase c(g, 0);
    std::vector<float> h;
    for (int k = 0; k < c.N; ++k) {
      c.Z->SetStep(k, 0.5f * c.Z->GetStep(k));
      h.push_back(c.Z->GetStep(k));
    }
    c.s->Solve();
    bool ok = true, kept = true;
    for (int k = 0; k < c.N; ++k) {
      ok = ok && (c.X(*c.Z, k + 1) - c.dyn[k]->F(c.X(*c.Z, k), c.U(*c.Z, k), c.Z->GetTime(k), h[k])).norm() < 1e-9;
      kept = kept && c.Z->GetStep(k) == h[k];
    }
    check(ok, "feasible");
    check(kept, "steps are those that were set");
  }
  return finish();
}
'''),
 ('P05-control-bound-inf-norm', 'P05', [(I, 'if (Zbar_->Control(k).norm() > GetOptions().control_max) {', 'if (Zbar_->Control(k).template lpNorm<Eigen::Infinity>() > GetOptions().control_max) {')],
  'a control whose largest entry is within the limit while its norm is not', 'the rollout accepts a control beyond the limit',
  r'''
#include "ref.hpp"
int main() {
  Gen g(7);
  StaticCase c(g, 0);
  c.s->SolveSetup();
  c.s->UpdateExpansions();
  c.s->BackwardPass();
  for (int k = 0; k < c.N; ++k) {
    c.s->GetKnotPointFunction(k).GetFeedforwardGain() = VectorXd::Constant(2, 0.9) - c.U(*c.Z, k);
    c.s->GetKnotPointFunction(k).GetFeedbackGain().setZero();
  }
  c.s->GetOptions().control_max = 1.0;
  check(!c.s->RolloutClosedLoop(1.0), "rejected");
  check(c.s->GetStatus() == SolverStatus::kControlLimit, "status");
  return finish();
}
'''),
 ('P06-first-decrease', 'P06', [(I, 'if (stats_.iterations_inner == 0) {', 'if (stats_.iterations_total == 0) {')],
  'a second solve with the same solver', 'the first cost decrease of a later solve is measured against the last cost of the previous solve, not its own initial cost',
  r'''
#include "ref.hpp"
int main() {
  Gen g(9);
  DynCase c(g, 0);
  auto& st = c.s->GetStats();
  c.s->GetOptions().max_iterations_inner = 1;
  c.s->Solve();
  for (int k = 0; k < c.N; ++k) c.Z->Control(k) = g.vec(c.m);
  c.s->Solve();
  near(st.cost_decrease.back(), st.initial_cost - st.cost.back(), "first decrease of the second solve");
  return finish();
}
'''),
 ('P06-inner-counts-all', 'P06', [(I, '    return grad_.sum() / grad_.size();', '    return grad_.head(std::max(1, N_ - 1)).sum() / std::max<int>(1, N_ - 1);')],
  'a large feedforward gain at the last segment only', 'the gradient measure leaves out the last segment, so a solve can report success too early',
  r'''
#include "ref.hpp"
int main() {
  Gen g(7);
  for (int i = 0; i < 10; ++i) {
    DynCase c(g, 0);
    c.s->SolveSetup();
    double want = 0;
    for (int k = 0; k < c.N; ++k) {
      VectorXd d = g.vec(c.m), u = c.U(*c.Z, k);
      c.s->GetKnotPointFunction(k).GetFeedforwardGain() = d;
      want += (d.array().abs() / (u.array().abs() + 1)).maxCoeff() / c.N;
    }
    near(c.s->NormalizedFeedforwardGain(), want, "gradient measure");
  }
  return finish();
}
'''),
 ('P10-boundary', 'P10', [('altro/constraints/constraint.hpp', 'jac(i, i) = x(i) > 0 ? 0 : 1;', 'jac(i, i) = std::abs(x(i)) > 0 && x(i) > -1e6 ? (x(i) > 0 ? 0 : 1) : (x(i) == 0);')],
  'an entry below -1e6', 'the projection Jacobian of the orthant is zero for very negative entries',
  r'''
#include "gen.hpp"
int main() {
  VectorXd x(3);
  x << -2e6, 1, -1;
  MatrixXd J = MatrixXd::Zero(3, 3), W = MatrixXd::Zero(3, 3);
  W(0, 0) = W(2, 2) = 1;
  constraints::NegativeOrthant::Jacobian(x, J);
  near(J, W, "orthant Jacobian", 0);
  return finish();
}
'''),
 ('P12-stage-time', 'P12', [('altro/problem/integration.hpp', 'dynamics->Evaluate(x + k3_ * h, u, t + h, k4_);', 'dynamics->Evaluate(x + k3_ * h, u, t + 0.5 * h, k4_);')],
  'dynamics that depend on time', 'the last Runge-Kutta stage is taken at the midpoint time',
  r'''
#include "gen.hpp"
struct C : public problem::ContinuousDynamics {
  static constexpr int NStates = 1, NControls = 1;
  using problem::ContinuousDynamics::Evaluate;
  int StateDimension() const override { return 1; }
  int ControlDimension() const override { return 1; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> d) override { d(0) = 3.0 * t * t; }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, float, Eigen::Ref<MatrixXd> j) override { j.setZero(); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  bool HasHessian() const override { return false; }
};
int main() {
  problem::RungeKutta4<1, 1> rk(1, 1);
  VectorXd x = VectorXd::Zero(1), u = x, y = x;
  rk.Integrate(std::make_shared<C>(), x, u, 1.0, 0.5, y);
  near(y(0), 1.5 * 1.5 * 1.5 - 1, "cubic integrated exactly", 1e-6);
  return finish();
}
'''),
 ('P15-last-segment', 'P15', [('altro/common/trajectory.hpp', 'for (int k = 0; k < NumSegments(); ++k) {\n      float h_calc', 'for (int k = 0; k + 1 < NumSegments() || k == 0; ++k) {\n      float h_calc')],
  'an inconsistent step in the last segment', 'the consistency check skips the last segment',
  r'''
#include "gen.hpp"
int main() {
  Trajectory<2, 1> z(2, 1, 5);
  z.SetUniformStep(0.1f);
  check(z.CheckTimeConsistency(1e-4), "consistent");
  z.SetStep(4, 0.3f);
  check(!z.CheckTimeConsistency(1e-4), "inconsistent last segment");
  return finish();
}
'''),
 ('P15-move-step', 'P15', [('altro/common/trajectory.hpp', '    traj_[N].SetStep(0.0);\n    traj_[N].SetTime(static_cast<float>(h) * N);', '    traj_[N].SetStep(0.0);\n    traj_[N].SetTime(traj_[N - 1].GetTime() + traj_[0].GetStep() * (N > 40 ? 0.999F : 1.0F));')],
  'a horizon of more than 40 segments', 'the terminal time of a uniform trajectory is off',
  r'''
#include "gen.hpp"
int main() {
  Trajectory<2, 1> z(2, 1, 60);
  z.SetUniformStep(0.5f);
  near(z.GetTime(60), 30.0, "terminal time", 1e-6);
  return finish();
}
'''),
 ('P16-block-time', 'P16', [(I, 'knotpoints_[k]->CalcDynamicsExpansion(z.State(), z.Control(), z.GetTime(), z.GetStep());', 'knotpoints_[k]->CalcDynamicsExpansion(z.State(), z.Control(), Z_->GetTime(start) + (k - start) * z.GetStep(), z.GetStep());')],
  'steps that differ between knot points, with time-varying dynamics', 'the dynamics Jacobian is evaluated at a time extrapolated with the local step',
  r'''
#include "ref.hpp"
int main() {
  Gen g(7);
  for (int i = 0; i < 5; ++i) {
    DynCase c(g, 0);
    c.expansions();
  }
  return finish();
}
'''),
]
