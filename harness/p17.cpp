// adapters between the forms of a function, finite differences and the derivative checks
#include "gen.hpp"
using altro::utils::FiniteDiffGradient;
using altro::utils::FiniteDiffHessian;
using altro::utils::FiniteDiffJacobian;
struct CD : public problem::ContinuousDynamics {   // records the time it was given
  using problem::ContinuousDynamics::Evaluate;
  using problem::ContinuousDynamics::Hessian;
  using problem::ContinuousDynamics::Jacobian;
  CD(Gen& g, int n, int m) : d(g, n, m), n_(n), m_(m) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> o) override {
    VectorXd a = x, b = u;
    o = d.F(a, b, t, 1.0f);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<MatrixXd> j) override {
    VectorXd a = x, b = u;
    j = d.J(a, b, t, 1.0f);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef&, float t, const VectorXdRef& b, Eigen::Ref<MatrixXd> h) override {
    h.setConstant(t + b.sum() + x.sum());
  }
  bool HasHessian() const override { return true; }
  Dyn d;
  int n_, m_;
};
struct DD : public problem::DiscreteDynamics {
  using problem::DiscreteDynamics::Evaluate;
  using problem::DiscreteDynamics::Hessian;
  using problem::DiscreteDynamics::Jacobian;
  DD(Gen& g, int n, int m) : d(g, n, m), n_(n), m_(m) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> o) override {
    VectorXd a = x, b = u;
    o = d.F(a, b, t, h);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> j) override {
    VectorXd a = x, b = u;
    j = d.J(a, b, t, h);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef&, float t, float h, const VectorXdRef& b, Eigen::Ref<MatrixXd> o) override {
    o.setConstant(t + 10 * h + b.sum() + x.sum());
  }
  bool HasHessian() const override { return true; }
  Dyn d;
  int n_, m_;
};
// vector function y = A z + c sin(W z), with an error in the derivatives of a chosen size
struct VF : public FunctionBase {
  VF(Gen& g, int n, int m, int p) : A(g.mat(p, n + m)), W(g.mat(p, n + m)), c(g.vec(p)), E(MatrixXd::Zero(p, n + m)), n_(n), m_(m), p_(p) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  int OutputDimension() const override { return p_; }
  VectorXd z(const VectorXdRef& x, const VectorXdRef& u) const {
    VectorXd r(n_ + m_);
    r << x, u;
    return r;
  }
  VectorXd F(const VectorXd& q) const { return A * q + c.cwiseProduct((W * q).array().sin().matrix()); }
  MatrixXd J(const VectorXd& q) const { return A + MatrixXd(c.cwiseProduct((W * q).array().cos().matrix()).asDiagonal()) * W; }
  MatrixXd H(const VectorXd& q, const VectorXd& b) const {
    MatrixXd r = MatrixXd::Zero(n_ + m_, n_ + m_);
    for (int i = 0; i < p_; ++i) r -= b(i) * c(i) * std::sin(W.row(i).dot(q)) * W.row(i).transpose() * W.row(i);
    return r;
  }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> o) override { o = F(z(x, u)); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> j) override { j = J(z(x, u)) + E; }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, const VectorXdRef& b, Eigen::Ref<MatrixXd> h) override {
    h = H(z(x, u), b) + EH;
  }
  bool HasHessian() const override { return true; }
  MatrixXd A, W;
  VectorXd c;
  MatrixXd E, EH;
  int n_, m_, p_;
};
struct Bad : public Quad {      // a cost whose derivatives can be wrong by a given amount
  Bad(Gen& g, int n, int m) : Quad(g, n, m, true, 0.3), ex(VectorXd::Zero(n)), eu(VectorXd::Zero(m)), hxx(MatrixXd::Zero(n, n)),
                              hxu(MatrixXd::Zero(n, m)), huu(MatrixXd::Zero(m, m)) {}
  using Quad::Gradient;
  using Quad::Hessian;
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    Quad::Gradient(x, u, dx, du);
    dx += ex;
    du += eu;
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> a, Eigen::Ref<MatrixXd> b, Eigen::Ref<MatrixXd> c) override {
    Quad::Hessian(x, u, a, b, c);
    a += hxx;
    b += hxu;
    c += huu;
  }
  VectorXd ex, eu;
  MatrixXd hxx, hxu, huu;
};
struct Assign : public Quad {   // a cost that overwrites the storage it is given
  using Quad::Quad;
  using Quad::Gradient;
  using Quad::Hessian;
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    dx.setZero();
    du.setZero();
    Quad::Gradient(x, u, dx, du);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> a, Eigen::Ref<MatrixXd> b, Eigen::Ref<MatrixXd> c) override {
    a.setZero();
    b.setZero();
    c.setZero();
    Quad::Hessian(x, u, a, b, c);
  }
};
struct Const : public FunctionBase {   // no difference quotient is ever nonzero
  using FunctionBase::FunctionBase;
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  int OutputDimension() const override { return 2; }
  void Evaluate(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> o) override { o.setConstant(3); }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> j) override {
    j.setZero();
    j(0, 0) = e;
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> h) override {
    h.setZero();
    h(0, 0) = e;
  }
  bool HasHessian() const override { return true; }
  double e = 0;
};
static void limits() {          // the error has to be below the tolerance, not just equal to it
  Const c;
  VectorXd x = VectorXd::Ones(2), u = VectorXd::Ones(1), b = VectorXd::Ones(2);
  for (double e : {0.0, 0.25, 1.0, 2.0}) {
    c.e = e;
    check(!c.CheckJacobian(x, u, e), "Jacobian error equal to the tolerance");
    check(!c.CheckHessian(x, u, b, e), "Hessian error equal to the tolerance");
    check(c.CheckJacobian(x, u, e + 1e-9) && c.CheckHessian(x, u, b, e + 1e-9), "error just below the tolerance");
  }
}
static void adapters(Gen& g) {
  int n = g.i(1, 4), m = g.i(1, 3);
  VectorXd x = g.vec(n), u = g.vec(m), b = g.vec(n);
  float t = g.u(-2, 2), h = g.u(0.1, 1);
  CD c(g, n, m);
  check(c.OutputDimension() == n, "continuous output dimension");
  c.SetTime(t);
  near(c.GetTime(), t, "stored time", 0);
  VectorXd o(n);
  MatrixXd j(n, n + m), hs(n + m, n + m);
  FunctionBase& f = c;
  f.Evaluate(x, u, o);
  near(o, c.d.F(x, u, t, 1.0f), "continuous value, stored time", 1e-12);
  f.Jacobian(x, u, j);
  near(j, c.d.J(x, u, t, 1.0f), "continuous Jacobian, stored time", 1e-12);
  f.Hessian(x, u, b, hs);
  near(hs, MatrixXd::Constant(n + m, n + m, t + b.sum() + x.sum()), "continuous Hessian, stored time", 1e-12);
  float s = g.u(-2, 2);
  near(c.Evaluate(x, u, s), c.d.F(x, u, s, 1.0f), "continuous value returned", 1e-12);
  near(c(x, u, s), c.d.F(x, u, s, 1.0f), "continuous call", 1e-12);
  near(c.GetTime(), t, "time kept", 0);
  DD d(g, n, m);
  check(d.OutputDimension() == n, "discrete output dimension");
  d.SetTime(t);
  d.SetStep(h);
  near(d.GetStep(), h, "stored step", 0);
  FunctionBase& e = d;
  e.Evaluate(x, u, o);
  near(o, d.d.F(x, u, t, h), "discrete value, stored time and step", 1e-12);
  e.Jacobian(x, u, j);
  near(j, d.d.J(x, u, t, h), "discrete Jacobian, stored time and step", 1e-12);
  e.Hessian(x, u, b, hs);
  near(hs, MatrixXd::Constant(n + m, n + m, t + 10 * h + b.sum() + x.sum()), "discrete Hessian, stored time and step", 1e-6);
  near(d.Evaluate(x, u, s, h), d.d.F(x, u, s, h), "discrete value returned", 1e-12);
  near(d(x, u, s, h), d.d.F(x, u, s, h), "discrete call", 1e-12);
  // cost
  Bad q(g, n, m);
  altro::ScalarFunction& p = q;
  VectorXd gr = VectorXd::Zero(n + m), want(n + m);
  want << q.Dx(x, u), q.Du(x, u);
  p.Gradient(x, u, gr);
  near(gr, want, "joint gradient", 1e-12);
  MatrixXd H = MatrixXd::Zero(n + m, n + m), W(n + m, n + m);
  W << q.Dxx(x, u), q.Dxu(x, u), q.Dxu(x, u).transpose(), q.Duu(x, u);
  p.Hessian(x, u, H);
  near(H, W, "joint Hessian", 1e-12);
  H.setZero();
  FunctionBase& fb = q;
  fb.Hessian(x, u, VectorXd::Ones(1), H);
  near(H, W, "joint Hessian with weight", 1e-12);
  Assign as(g, n, m);
  altro::ScalarFunction& ap = as;
  MatrixXd AW(n + m, n + m);
  AW << as.Dxx(x, u), as.Dxu(x, u), as.Dxu(x, u).transpose(), as.Duu(x, u);
  H = g.mat(n + m, n + m);
  ap.Hessian(x, u, H);
  near(H, AW, "joint Hessian over used storage", 1e-12);
  gr = g.vec(n + m);
  want << as.Dx(x, u), as.Du(x, u);
  ap.Gradient(x, u, gr);
  near(gr, want, "joint gradient over used storage", 1e-12);
  MatrixXd arow = g.mat(1, n + m);
  static_cast<FunctionBase&>(as).Jacobian(x, u, arow);
  near(arow, want.transpose(), "one-row Jacobian over used storage", 1e-12);
  want << q.Dx(x, u), q.Du(x, u);
  VectorXd one(1);
  fb.Evaluate(x, u, one);
  near(one(0), q.F(x, u), "value as a vector", 1e-12);
  check(fb.OutputDimension() == 1, "scalar output dimension");
  MatrixXd row = MatrixXd::Zero(1, n + m), big = MatrixXd::Zero(3, n + m);
  fb.Jacobian(x, u, row);
  near(row, want.transpose(), "one-row Jacobian", 1e-12);
  fb.Jacobian(x, u, big.block(1, 0, 1, n + m));
  near(big.row(1), want.transpose(), "one-row Jacobian in a strided row", 1e-12);
  check(big.row(0).isZero() && big.row(2).isZero(), "other rows are left alone");
}
template <int R, int C>
void fd(Gen& g) {
  int n = C > 0 ? C : g.i(0, 15) ? g.i(1, 5) : g.i(6, 40), p = R > 0 ? R : g.i(1, 4);
  typedef Eigen::Matrix<double, C, 1> X;
  typedef Eigen::Matrix<double, R, 1> Y;
  VF f(g, n, 0, p);
  auto fun = [&](const X& z) -> Y { return f.F(z); };
  X x = g.vec(n);
  double eps = std::pow(10, g.u(-5, -1));
  for (int central = 0; central < 2; ++central) {
    MatrixXd w(p, n);
    for (int i = 0; i < n; ++i) {
      VectorXd e = VectorXd::Zero(n);
      e(i) = eps;
      w.col(i) = central ? VectorXd((f.F(x + e) - f.F(x - e)) / (2 * eps)) : VectorXd((f.F(x + e) - f.F(x)) / eps);
    }
    near(FiniteDiffJacobian<R, C>(fun, x, eps, central), w, "difference quotient", 1e-9);
    if (R == -1 && C == -1) near(FiniteDiffJacobian(fun, x, eps, central), w, "difference quotient, dynamic", 1e-9);
  }
  MatrixXd w6(p, n);
  for (int i = 0; i < n; ++i) {
    VectorXd e = VectorXd::Zero(n);
    e(i) = 1e-6;
    w6.col(i) = (f.F(x + e) - f.F(x)) / 1e-6;
  }
  near(FiniteDiffJacobian<R, C>(fun, x), w6, "default difference quotient", 1e-7);
  auto sc = [&](const X& z) -> double { return f.F(z)(0); };
  for (int central = 0; central < 2; ++central) {
    VectorXd w(n);
    MatrixXd hh(n, n);
    auto grad = [&](const VectorXd& z) {
      VectorXd r(n);
      for (int i = 0; i < n; ++i) {
        VectorXd e = VectorXd::Zero(n);
        e(i) = eps;
        r(i) = central ? (f.F(z + e)(0) - f.F(z - e)(0)) / (2 * eps) : (f.F(z + e)(0) - f.F(z)(0)) / eps;
      }
      return r;
    };
    w = grad(x);
    near(FiniteDiffGradient<C>(sc, x, eps, central), w, "gradient quotient", 1e-9);
    for (int i = 0; i < n; ++i) {
      VectorXd e = VectorXd::Zero(n);
      e(i) = eps;
      hh.col(i) = central ? VectorXd((grad(x + e) - grad(x - e)) / (2 * eps)) : VectorXd((grad(x + e) - grad(x)) / eps);
    }
    near(FiniteDiffHessian<C>(sc, x, eps, central), hh, "Hessian quotient", 1e-5);
  }
}
static void checks(Gen& g) {
  int n = g.i(1, 4), m = g.i(1, 3), p = g.i(1, 4);
  VectorXd x = g.vec(n), u = g.vec(m), b = g.vec(p);
  double eps = std::pow(10, g.u(-3.5, -1));
  bool bad = g.coin();
  double size = bad ? g.u(1.05, 3) * eps : g.u(0, 0.9) * eps;   // Frobenius norm of the error
  auto spread = [&](MatrixXd M) { return MatrixXd(M * (size / M.norm())); };
  VF f(g, n, m, p);
  f.E = g.coin() ? spread(g.mat(p, n + m)) : MatrixXd::Zero(p, n + m);
  if (f.E.isZero()) {
    f.E = MatrixXd::Zero(p, n + m);
    f.E(g.i(0, p - 1), g.i(0, n + m - 1)) = g.coin() ? size : -size;
  }
  f.EH = MatrixXd::Zero(n + m, n + m);
  std::string w = bad ? "too large an error is reported" : "a small error is accepted";
  check(f.CheckJacobian(x, u, eps) == !bad, "Jacobian: " + w);
  f.EH(g.i(0, n + m - 1), g.i(0, n + m - 1)) = size;
  check(f.CheckHessian(x, u, b, eps) == !bad, "Hessian: " + w);
  for (int r = 0; r < 2; ++r) {
    check(f.CheckJacobian(eps) == !bad, "Jacobian at a random point: " + w);
    check(f.CheckHessian(eps) == !bad, "Hessian at a random point: " + w);
  }
  Bad q(g, n, m);
  if (g.coin()) q.ex(g.i(0, n - 1)) = size;
  else q.eu(g.i(0, m - 1)) = -size;
  q.huu(g.i(0, m - 1), 0) = size;
  check(q.CheckGradient(x, u, eps) == !bad, "gradient: " + w);
  check(q.CheckGradient(eps) == !bad, "gradient at a random point: " + w);
  check(q.CheckJacobian(x, u, eps) == !bad, "gradient as Jacobian: " + w);
  check(q.CheckHessian(x, u, VectorXd::Ones(1), eps) == !bad, "cost Hessian: " + w);
  check(q.CheckHessian(eps) == !bad, "cost Hessian at a random point: " + w);
}
int main() {
  Gen g(seed());
  srand(seed());
  limits();
  for (int i = 0; i < rounds(200); ++i) {
    adapters(g);
    fd<-1, -1>(g);
    fd<3, 2>(g);
    fd<2, 4>(g);
    checks(g);
  }
  return finish();
}
