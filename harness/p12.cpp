// integrators against their scheme and a chain-rule Jacobian, on time-varying dynamics
#include "gen.hpp"
// xdot = C sin(W x + V u + a t) + A x + B u
template <int n_, int m_>
class Cont : public problem::ContinuousDynamics {
 public:
  static constexpr int NStates = n_;
  static constexpr int NControls = m_;
  Cont(Gen& g, int n, int m) : A(g.mat(n, n)), B(g.mat(n, m)), C(g.mat(n, n)), W(g.mat(n, n)), V(g.mat(n, m)), w(g.vec(n, 3)), n_x(n), m_u(m) {}
  using problem::ContinuousDynamics::Evaluate;
  using problem::ContinuousDynamics::Hessian;
  using problem::ContinuousDynamics::Jacobian;
  int StateDimension() const override { return n_x; }
  int ControlDimension() const override { return m_u; }
  VectorXd F(const VectorXd& x, const VectorXd& u, float t) const {
    VectorXd p = W * x + V * u + w * double(t);
    return A * x + B * u + C * p.array().sin().matrix();
  }
  MatrixXd J(const VectorXd& x, const VectorXd& u, float t) const {
    VectorXd p = W * x + V * u + w * double(t);
    MatrixXd D = p.array().cos().matrix().asDiagonal(), r(n_x, n_x + m_u);
    r << A + C * D * W, B + C * D * V;
    return r;
  }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> xdot) override {
    VectorXd a = x, b = u;
    xdot = F(a, b, t);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<MatrixXd> jac) override {
    VectorXd a = x, b = u;
    jac = J(a, b, t);
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  bool HasHessian() const override { return false; }
  MatrixXd A, B, C, W, V;
  VectorXd w;
  int n_x, m_u;
};
template <int n_, int m_>
void run(Gen& g) {
  int n = n_ > 0 ? n_ : g.i(1, 5), m = m_ > 0 ? m_ : g.i(1, 4);
  Cont<n_, m_> c(g, n, m);
  auto p = std::make_shared<Cont<n_, m_>>(c);
  problem::DiscretizedModel<Cont<n_, m_>> rk(c);
  problem::DiscretizedModel<Cont<n_, m_>, problem::ExplicitEuler> eu(c);
  problem::ExplicitEuler euler(n, m);
  problem::RungeKutta4<n_, m_> rk4(n, m);
  for (int q = 0; q < 3; ++q) {
    VectorXd x = g.vec(n), u = g.vec(m), got(n);
    float t = g.u(-2, 2), h = g.coin(0.2) ? -g.u(0.05, 0.5) : g.u(0.01, 0.8);
    float tm = t + 0.5 * h, te = t + h;
    double H = h;
    MatrixXd I = MatrixXd::Identity(n, n), jac = g.mat(n, n + m), want(n, n + m);
    VectorXd k1 = c.F(x, u, t), k2 = c.F(x + 0.5 * H * k1, u, tm), k3 = c.F(x + 0.5 * H * k2, u, tm), k4 = c.F(x + H * k3, u, te);
    MatrixXd J1 = c.J(x, u, t), J2 = c.J(x + 0.5 * H * k1, u, tm), J3 = c.J(x + 0.5 * H * k2, u, tm), J4 = c.J(x + H * k3, u, te);
    VectorXd e = x + H * k1, r = x + H / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    // derivative of [x; u] -> stage
    MatrixXd Z = MatrixXd::Zero(m, n + m);
    Z.rightCols(m) = MatrixXd::Identity(m, m);
    auto stage = [&](const MatrixXd& J, const MatrixXd& dx) {
      MatrixXd s(n + m, n + m);
      s << dx, Z;
      return MatrixXd(J * s);
    };
    MatrixXd X0 = MatrixXd::Zero(n, n + m);
    X0.leftCols(n) = I;
    MatrixXd K1 = stage(J1, X0), K2 = stage(J2, X0 + 0.5 * H * K1), K3 = stage(J3, X0 + 0.5 * H * K2), K4 = stage(J4, X0 + H * K3);
    MatrixXd je = X0 + H * K1, jr = X0 + H / 6 * (K1 + 2 * K2 + 2 * K3 + K4);
    const double tol = 2e-6;   // times are single precision
    euler.Integrate(p, x, u, t, h, got);
    near(got, e, "Euler step", tol);
    euler.Jacobian(p, x, u, t, h, jac);
    near(jac, je, "Euler Jacobian", tol);
    rk4.Integrate(p, x, u, t, h, got);
    near(got, r, "RK4 step", tol);
    rk4.Jacobian(p, x, u, t, h, jac);
    near(jac, jr, "RK4 Jacobian", tol);
    eu.Evaluate(x, u, t, h, got);
    near(got, e, "discretised Euler", tol);
    eu.Jacobian(x, u, t, h, jac);
    near(jac, je, "discretised Euler Jacobian", tol);
    rk.Evaluate(x, u, t, h, got);
    near(got, r, "discretised RK4", tol);
    rk.Jacobian(x, u, t, h, jac);
    near(jac, jr, "discretised RK4 Jacobian", tol);
  }
  check(rk.StateDimension() == n && rk.ControlDimension() == m, "dimensions of the discretised model");
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(400); ++i) {
    run<-1, -1>(g);
    run<4, 2>(g);
    run<3, 1>(g);
  }
  return finish();
}
