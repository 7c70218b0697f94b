// Random problems with known derivatives, for the bounded runs that look for a failing input.
#pragma once
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>

#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/common/trajectory.hpp"
#include "altro/constraints/constraint.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "altro/problem/discretized_model.hpp"
#include "altro/problem/integration.hpp"
#include "altro/problem/problem.hpp"

using namespace altro;  // NOLINT
using Eigen::MatrixXd;
using Eigen::VectorXd;

static long g_evals = 0;
static int g_fails = 0;
static inline bool thorough() {
  const char* t = getenv("VERIF_TIER");
  return t && std::string(t) == "thorough";
}
static inline unsigned seed() {
  const char* s = getenv("VERIF_SEED");
  return s ? static_cast<unsigned>(atol(s)) : 1u;
}
static inline int rounds(int quick) { return thorough() ? 10 * quick : quick; }

static inline bool fail(const std::string& what, const std::string& detail = "") {
  if (g_fails < 20) printf("FAIL %s %s\n", what.c_str(), detail.c_str());
  ++g_fails;
  return false;
}
static inline bool check(bool ok, const std::string& what, const std::string& detail = "") {
  ++g_evals;
  return ok ? true : fail(what, detail);
}
static inline std::string str(const Eigen::Ref<const MatrixXd>& a) {
  std::ostringstream o;
  Eigen::IOFormat f(12, Eigen::DontAlignCols, " ", "; ", "", "", "[", "]");
  o << a.format(f);
  return o.str().substr(0, 400);
}
static inline bool close(double a, double b, double tol = 1e-7) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b)));
}
static inline bool near(double got, double want, const std::string& what, double tol = 1e-7) {
  std::ostringstream o;
  o.precision(17);
  o << "got " << got << " expected " << want;
  return check(close(got, want, tol), what, o.str());
}
static inline bool near(const Eigen::Ref<const MatrixXd>& got, const Eigen::Ref<const MatrixXd>& want, const std::string& what,
                        double tol = 1e-7) {
  bool ok = got.rows() == want.rows() && got.cols() == want.cols();
  if (ok && got.size()) {
    double s = 1 + std::max(got.cwiseAbs().maxCoeff(), want.cwiseAbs().maxCoeff());
    ok = (got - want).cwiseAbs().maxCoeff() <= tol * s;
  }
  return check(ok, what, ok ? "" : "got " + str(got) + " expected " + str(want));
}
template <class F>
static bool throws(F f) {
  try {
    f();
  } catch (...) {
    return true;
  }
  return false;
}
// does f stop the program (assertion) or throw?  Run in a child process, which has only this process's threads.
template <class F>
static bool refuses(F f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    fclose(stderr);
    try {
      f();
    } catch (...) {
      _exit(1);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
static inline int finish() {
  printf("STATS evaluations=%ld\n", g_evals);
  return g_fails ? 1 : 0;
}

struct Gen {
  std::mt19937_64 g;
  explicit Gen(unsigned s) : g(s * 7919u + 17u) {}
  double u(double a = -1, double b = 1) { return std::uniform_real_distribution<double>(a, b)(g); }
  int i(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); }
  bool coin(double p = 0.5) { return u(0, 1) < p; }
  VectorXd vec(int n, double s = 1) {
    VectorXd v(n);
    for (int k = 0; k < n; ++k) v(k) = u(-s, s);
    return v;
  }
  MatrixXd mat(int r, int c, double s = 1) {
    MatrixXd v(r, c);
    for (int k = 0; k < r; ++k)
      for (int j = 0; j < c; ++j) v(k, j) = u(-s, s);
    return v;
  }
  MatrixXd spd(int n, double eps = 0.1) {
    MatrixXd a = mat(n, n);
    return a * a.transpose() + eps * MatrixXd::Identity(n, n);
  }
  MatrixXd sym(int n, double s = 1) {
    MatrixXd a = mat(n, n, s);
    return 0.5 * (a + a.transpose());
  }
};

// x+ = A x + B u + h * C sin(W x + V u + t): time-varying, all derivatives known.  Derivatives are added to the
// storage that is handed in, which the caller is to clear.
class Dyn : public problem::DiscreteDynamics {
 public:
  Dyn(Gen& g, int n, int m, double s = 0.5)
      : A(MatrixXd::Identity(n, n) + g.mat(n, n, 0.2 * s)), B(g.mat(n, m, s)), C(g.mat(n, n, s)), W(g.mat(n, n, s)),
        V(g.mat(n, m, s)), n_(n), m_(m) {}
  using problem::DiscreteDynamics::Evaluate;
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  VectorXd F(const VectorXd& x, const VectorXd& u, float t, float h) const {
    VectorXd p = W * x + V * u + VectorXd::Constant(n_, t);
    return A * x + B * u + double(h) * (C * p.array().sin().matrix());
  }
  MatrixXd J(const VectorXd& x, const VectorXd& u, float t, float h) const {
    VectorXd p = W * x + V * u + VectorXd::Constant(n_, t);
    MatrixXd D = p.array().cos().matrix().asDiagonal();
    MatrixXd r(n_, n_ + m_);
    r << A + double(h) * C * D * W, B + double(h) * C * D * V;
    return r;
  }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h,
                Eigen::Ref<VectorXd> xnext) override {
    ++calls;
    VectorXd xx = x, uu = u;
    xnext = F(xx, uu, t, h);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h,
                Eigen::Ref<MatrixXd> jac) override {
    VectorXd xx = x, uu = u;
    jac += J(xx, uu, t, h);
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&,
               Eigen::Ref<MatrixXd>) override {}
  bool HasHessian() const override { return false; }
  MatrixXd A, B, C, W, V;
  long calls = 0;

 private:
  int n_, m_;
};

// 0.5 x'Qx + x'Hu + 0.5 u'Ru + q'x + r'u + c + a cos(w'x + v'u)
class Quad : public problem::CostFunction {
 public:
  Quad(Gen& g, int n, int m, bool convex = true, double wave = 0.1)
      : Q(convex ? g.spd(n) : g.sym(n)), R(convex ? g.spd(m, 0.5) : g.sym(m)), H(g.mat(n, m, convex ? 0.1 : 0.5)), q(g.vec(n)),
        r(g.vec(m)), w(g.vec(n)), v(g.vec(m)), a(wave), c(g.u()), n_(n), m_(m) {}
  using problem::CostFunction::Gradient;
  using problem::CostFunction::Hessian;
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  double F(const VectorXd& x, const VectorXd& u) const {
    return 0.5 * x.dot(Q * x) + x.dot(H * u) + 0.5 * u.dot(R * u) + q.dot(x) + r.dot(u) + c + a * std::cos(w.dot(x) + v.dot(u));
  }
  VectorXd Dx(const VectorXd& x, const VectorXd& u) const { return Q * x + H * u + q - a * std::sin(w.dot(x) + v.dot(u)) * w; }
  VectorXd Du(const VectorXd& x, const VectorXd& u) const {
    return H.transpose() * x + R * u + r - a * std::sin(w.dot(x) + v.dot(u)) * v;
  }
  double k2(const VectorXd& x, const VectorXd& u) const { return -a * std::cos(w.dot(x) + v.dot(u)); }
  MatrixXd Dxx(const VectorXd& x, const VectorXd& u) const { return Q + k2(x, u) * w * w.transpose(); }
  MatrixXd Dxu(const VectorXd& x, const VectorXd& u) const { return H + k2(x, u) * w * v.transpose(); }
  MatrixXd Duu(const VectorXd& x, const VectorXd& u) const { return R + k2(x, u) * v * v.transpose(); }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    VectorXd xx = x, uu = u;
    return F(xx, uu);
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    VectorXd xx = x, uu = u;
    dx += Dx(xx, uu);
    du += Du(xx, uu);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx, Eigen::Ref<MatrixXd> dxdu,
               Eigen::Ref<MatrixXd> dudu) override {
    VectorXd xx = x, uu = u;
    dxdx += Dxx(xx, uu);
    dxdu += Dxu(xx, uu);
    dudu += Duu(xx, uu);
  }
  bool HasHessian() const override { return true; }
  MatrixXd Q, R, H;
  VectorXd q, r, w, v;
  double a, c;

 private:
  int n_, m_;
};
