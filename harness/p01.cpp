// one LQR step on arbitrary data against its definition
#include "gen.hpp"
template <int n_, int m_>
void run(Gen& g) {
  int n = n_ > 0 ? n_ : g.i(1, 5), m = m_ > 0 ? m_ : g.i(1, 4);
  auto dyn = std::make_shared<Dyn>(g, n, m);
  auto cost = std::make_shared<Quad>(g, n, m);
  ilqr::KnotPointFunctions<n_, m_> f(dyn, cost);
  auto& e = f.GetCostExpansion();
  e.dxdx() = g.mat(n, n);
  e.dxdu() = g.mat(n, m);
  e.dx() = g.vec(n);
  e.du() = g.vec(m);
  bool bad = g.coin(0.3), asym = g.coin(0.3);
  e.dudu() = bad ? MatrixXd(-g.spd(m) * 1e3) : g.spd(m, 1.0);
  MatrixXd J = g.mat(n, n + m);
  f.GetDynamicsExpansion().GetJacobian() = J;
  MatrixXd A = J.leftCols(n), B = J.rightCols(m);
  near(MatrixXd(f.GetDynamicsExpansion().GetA()), A, "A", 0);
  near(MatrixXd(f.GetDynamicsExpansion().GetB()), B, "B", 0);
  MatrixXd S = asym ? g.mat(n, n) : MatrixXd(g.spd(n));
  VectorXd s = g.vec(n);
  ilqr::CostExpansion<n_, m_> e0 = e;
  f.CalcActionValueExpansion(S, s);
  MatrixXd Qxx = e0.dxdx() + A.transpose() * S * A, Qxu = e0.dxdu() + A.transpose() * S * B, Quu = e0.dudu() + B.transpose() * S * B;
  VectorXd qx = e0.dx() + A.transpose() * s, qu = e0.du() + B.transpose() * s;
  auto isq = [&](ilqr::CostExpansion<n_, m_>& q, double rho, std::string w) {
    near(q.dxdx(), Qxx, w + " dxdx");
    near(q.dxdu(), Qxu, w + " dxdu");
    near(q.dudu(), Quu + rho * MatrixXd::Identity(m, m), w + " dudu");
    near(q.dx(), qx, w + " dx");
    near(q.du(), qu, w + " du");
  };
  isq(f.GetActionValueExpansion(), 0, "action value");
  double rho = g.coin(0.3) ? 0 : std::pow(10, g.u(-6, 2));
  f.RegularizeActionValue(rho);
  isq(f.GetActionValueExpansion(), 0, "action value after regularisation");
  isq(f.GetActionValueExpansionRegularized(), rho, "regularised action value");
  near(e.dudu(), e0.dudu(), "cost expansion kept", 0);
  near(e.dx(), e0.dx(), "cost expansion kept", 0);
  MatrixXd K0 = g.mat(m, n);
  VectorXd d0 = g.vec(m);
  f.GetFeedbackGain() = K0;
  f.GetFeedforwardGain() = d0;
  Eigen::ComputationInfo info = f.CalcGains();
  // Eigen reads the lower triangle
  MatrixXd L = (Quu + rho * MatrixXd::Identity(m, m)).template selfadjointView<Eigen::Lower>();
  double ev = Eigen::SelfAdjointEigenSolver<MatrixXd>(L).eigenvalues()(0);
  if (std::abs(ev) > 1e-6) check((info == Eigen::Success) == (ev > 0), "factorisation verdict");
  MatrixXd K = f.GetFeedbackGain();
  VectorXd d = f.GetFeedforwardGain();
  if (info != Eigen::Success) {
    near(K, K0, "gains kept on failure", 0);
    near(d, d0, "gains kept on failure", 0);
  } else if (!asym && ev > 1e-3) {
    near(L * K, -Qxu.transpose(), "feedback gain", 1e-6);
    near(L * d, -qu, "feedforward gain", 1e-6);
  }
  f.GetFeedbackGain() = K0;
  f.GetFeedforwardGain() = d0;
  f.CalcCostToGo();
  near(f.GetCostToGoGradient(), qx + K0.transpose() * Quu * d0 + K0.transpose() * qu + Qxu * d0, "cost-to-go gradient");
  near(f.GetCostToGoHessian(), Qxx + K0.transpose() * Quu * K0 + K0.transpose() * Qxu.transpose() + Qxu * K0, "cost-to-go Hessian");
  double d1 = d0.dot(qu), d2 = 0.5 * d0.dot(Quu * d0), a = g.u(-2, 2);
  near(f.GetCostToGoDelta(a), a * d1 + a * a * d2, "expected change at a step");
  near(f.GetCostToGoDelta(), d1 + d2, "expected change");
  std::array<double, 2> dv = {g.u(), g.u()}, w = dv;
  f.AddCostToGo(&dv);
  near(dv[0], w[0] + d1, "first order change");
  near(dv[1], w[1] + d2, "second order change");
  double dp[2] = {w[0], w[1]};
  f.AddCostToGo(dp);
  near(dp[0], w[0] + d1, "first order change");
  near(dp[1], w[1] + d2, "second order change");
  f.CalcTerminalCostToGo();
  near(f.GetCostToGoHessian(), e0.dxdx(), "terminal Hessian", 0);
  near(f.GetCostToGoGradient(), e0.dx(), "terminal gradient", 0);
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(400); ++i) {
    run<-1, -1>(g);
    run<4, 2>(g);
  }
  return finish();
}
