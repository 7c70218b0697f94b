// Random constrained problems with known derivatives, and an independent account of the augmented Lagrangian.
#pragma once
#include "gen.hpp"
typedef constraints::Equality Eq;
typedef constraints::Inequality In;

// c_i = a_i'x + b_i'u - d_i + s_i (w_i'x + v_i'u)^2
template <class C>
class QCon : public constraints::Constraint<C> {
 public:
  QCon(Gen& g, int n, int m, int p, std::string label = "", double curve = 0.3)
      : A(g.mat(p, n)), B(g.mat(p, m)), W(g.mat(p, n)), V(g.mat(p, m)), d(g.vec(p)), s(g.vec(p, curve)), p_(p), n_(n), m_(m),
        label_(label) {}
  using constraints::Constraint<C>::StateDimension;
  int OutputDimension() const override { return p_; }
  std::string GetLabel() const override { return label_; }
  VectorXd F(const VectorXd& x, const VectorXd& u) const {
    VectorXd q = W * x + V * u;
    return A * x + B * u - d + (s.array() * q.array().square()).matrix();
  }
  MatrixXd J(const VectorXd& x, const VectorXd& u) const {
    VectorXd q = W * x + V * u;
    MatrixXd D = (2 * s.array() * q.array()).matrix().asDiagonal(), r(p_, n_ + m_);
    r << A + D * W, B + D * V;
    return r;
  }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    ++evals;
    VectorXd xx = x, uu = u;
    c = F(xx, uu);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    VectorXd xx = x, uu = u;
    jac = J(xx, uu);
  }
  MatrixXd A, B, W, V;
  VectorXd d, s;
  long evals = 0;

 private:
  int p_, n_, m_;
  std::string label_;
};
static inline VectorXd neg(const VectorXd& v) { return v.cwiseMin(0.0); }
// projection on the dual cone and its Jacobian
static inline VectorXd dual(Eq*, const VectorXd& v) { return v; }
static inline VectorXd dual(In*, const VectorXd& v) { return neg(v); }
static inline VectorXd mask(Eq*, const VectorXd& v) { return VectorXd::Ones(v.size()); }
static inline VectorXd mask(In*, const VectorXd& v) { return (v.array() > 0).select(VectorXd::Zero(v.size()), VectorXd::Ones(v.size())); }
// what is missing to be in the cone
static inline VectorXd off(Eq*, const VectorXd& c) { return c; }
static inline VectorXd off(In*, const VectorXd& c) { return c.cwiseMax(0.0); }

template <class C>
struct One {          // one constraint at one knot point
  std::shared_ptr<QCon<C>> con;
  VectorXd lam, rho;  // what its multipliers and penalties have to be
  double phi = 10;
  VectorXd c;         // value at the last evaluated point
};
template <int n_, int m_>
struct ALCase {
  typedef augmented_lagrangian::AugmentedLagrangianiLQR<n_, m_> Solver;
  Gen& g;
  int n, m, N;
  std::vector<std::shared_ptr<Dyn>> dyn;
  std::vector<std::shared_ptr<Quad>> cost;
  std::vector<std::vector<One<Eq>>> eq;
  std::vector<std::vector<One<In>>> in;
  std::unique_ptr<problem::Problem> prob;
  std::shared_ptr<Trajectory<n_, m_>> Z;
  VectorXd x0;
  std::string tag;
  explicit ALCase(Gen& gen, int maxcon = 3, double curve = 0.3, bool mild = false) : g(gen) {
    n = n_ > 0 ? n_ : g.i(1, 4);
    m = m_ > 0 ? m_ : g.i(1, 3);
    N = g.i(1, 5);
    prob = std::make_unique<problem::Problem>(N);
    eq.resize(N + 1);
    in.resize(N + 1);
    for (int k = 0; k <= N; ++k) {
      auto c = std::make_shared<Quad>(g, n, m);
      cost.push_back(c);
      prob->SetCostFunction(c, k);
      if (k < N) {
        dyn.push_back(std::make_shared<Dyn>(g, n, m));
        prob->SetDynamics(dyn.back(), k);
      }
      int a = mild ? (k == N && g.coin(0.3)) : g.i(0, maxcon), b = g.i(0, maxcon);
      for (int i = 0; i < a; ++i) add(eq[k], k, "eq", i, curve, mild);
      for (int i = 0; i < b; ++i) add(in[k], k, "in", i, curve, mild);
    }
    x0 = g.vec(n);
    prob->SetInitialState(x0);
    Z = traj();
    std::ostringstream o;
    o << "[n=" << n << " m=" << m << " N=" << N << "] ";
    tag = o.str();
  }
  template <class C>
  void add(std::vector<One<C>>& l, int k, const std::string& kind, int i, double curve, bool mild) {
    One<C> o;
    int p = mild ? 1 : g.i(1, 4);
    o.con = std::make_shared<QCon<C>>(g, n, m, p, kind + std::to_string(k) + "." + std::to_string(i), curve);
    if (mild) {
      o.con->d = VectorXd::Constant(p, std::is_same<C, In>::value ? g.u(0.2, 2) : g.u(-0.2, 0.2));
      if (k == N) o.con->B.setZero(), o.con->V.setZero();
    }
    o.lam = VectorXd::Zero(p);
    o.rho = VectorXd::Ones(p);
    o.c = VectorXd::Zero(p);
    l.push_back(o);
    prob->SetConstraint(o.con, k);
  }
  std::shared_ptr<Trajectory<n_, m_>> traj() {
    auto z = std::make_shared<Trajectory<n_, m_>>(n, m, N);
    for (int k = 0; k <= N; ++k) {
      z->State(k) = g.vec(n);
      z->Control(k) = k < N ? g.vec(m) : VectorXd(VectorXd::Zero(m));
    }
    z->SetUniformStep(float(g.u(0.05, 0.3)));
    return z;
  }
  // call f(record, values object, knot point, description) for every constraint, in order
  template <class S, class F>
  void each(S& s, F f) {
    for (int k = 0; k <= N; ++k) {
      auto c = s.GetALCost(k);
      check(c->GetEqualityConstraints().size() == eq[k].size(), tag + "equality constraints at " + std::to_string(k));
      check(c->GetInequalityConstraints().size() == in[k].size(), tag + "inequality constraints at " + std::to_string(k));
      for (size_t i = 0; i < eq[k].size() && i < c->GetEqualityConstraints().size(); ++i)
        f(eq[k][i], *c->GetEqualityConstraints()[i], k, tag + "equality " + std::to_string(i) + " at " + std::to_string(k) + " ");
      for (size_t i = 0; i < in[k].size() && i < c->GetInequalityConstraints().size(); ++i)
        f(in[k][i], *c->GetInequalityConstraints()[i], k, tag + "inequality " + std::to_string(i) + " at " + std::to_string(k) + " ");
    }
  }
  template <class S>
  void holds(S& s, const std::string& what, double tol = 1e-12) {
    each(s, [&](auto& r, auto& v, int, const std::string& at) {
      near(v.GetDuals(), r.lam, at + what + " multipliers", tol);
      near(v.GetPenalty(), r.rho, at + what + " penalties", tol);
      near(v.GetPenaltyScaling(), r.phi, at + what + " scaling", tol);
      check(v.GetConstraint() == r.con, at + what + " is that constraint");
    });
  }
  // random multipliers and penalties, in the solver and in the record
  template <class S>
  void shuffle(S& s, bool each_entry) {
    each(s, [&](auto& r, auto& v, int, const std::string&) {
      int p = r.rho.size();
      r.lam = g.vec(p, 2);
      if (std::is_same<std::decay_t<decltype(r)>, One<In>>::value) r.lam = neg(r.lam);
      r.rho = VectorXd::Constant(p, g.u(0.1, 20));
      if (each_entry)
        for (int i = 0; i < p; ++i) r.rho(i) = g.u(0.1, 20);
      r.phi = g.u(1, 12);
      v.GetDuals() = r.lam;
      v.GetPenalty() = r.rho;
      v.SetPenaltyScaling(r.phi);
    });
  }
  void evaluate(const Trajectory<n_, m_>& z) {
    for (int k = 0; k <= N; ++k) {
      for (auto& r : eq[k]) r.c = r.con->F(z.State(k), z.Control(k));
      for (auto& r : in[k]) r.c = r.con->F(z.State(k), z.Control(k));
    }
  }
  double violation(int k) {
    double v = 0;
    for (auto& r : eq[k]) v = std::max(v, off((Eq*)0, r.c).cwiseAbs().maxCoeff());
    for (auto& r : in[k]) v = std::max(v, off((In*)0, r.c).cwiseAbs().maxCoeff());
    return v;
  }
  double violation() {
    double v = 0;
    for (int k = 0; k <= N; ++k) v = std::max(v, violation(k));
    return v;
  }
  double penalty(int k) {
    double v = 0;
    for (auto& r : eq[k]) v = std::max(v, r.rho.maxCoeff());
    for (auto& r : in[k]) v = std::max(v, r.rho.maxCoeff());
    return v;
  }
  double penalty() {
    double v = 0;
    for (int k = 0; k <= N; ++k) v = std::max(v, penalty(k));
    return v;
  }
};
typedef ALCase<Eigen::Dynamic, Eigen::Dynamic> DynAL;
typedef ALCase<4, 2> StaticAL;
