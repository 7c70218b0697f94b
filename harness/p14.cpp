// a problem against a plain record of what it was given
#include <set>
#include "gen.hpp"
template <class C>
struct Con : public constraints::Constraint<C> {
  explicit Con(int p) : p_(p) {}
  int OutputDimension() const override { return p_; }
  void Evaluate(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> c) override { c.setZero(); }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> j) override { j.setZero(); }
  int p_;
};
typedef constraints::Equality Eq;
typedef constraints::Inequality In;
struct Rec {
  int N;
  VectorXd x0;
  std::vector<std::shared_ptr<problem::CostFunction>> cost;
  std::vector<std::shared_ptr<problem::DiscreteDynamics>> dyn;
  std::vector<std::vector<std::shared_ptr<constraints::Constraint<Eq>>>> eq;
  std::vector<std::vector<std::shared_ptr<constraints::Constraint<In>>>> in;
  std::pair<int, int> term{0, 0};
};
static bool defined(const Rec& r) {
  for (int k = 0; k <= r.N; ++k)
    if (!r.cost[k] || (k < r.N && !r.dyn[k])) return false;
  return r.x0.size() > 0 && r.dyn[0]->StateDimension() == r.x0.size();
}
static void holds(problem::Problem& p, const Rec& r, const std::string& w) {
  check(p.NumSegments() == r.N, w + ": horizon");
  near(p.GetInitialState(), r.x0, w + ": initial state", 0);
  int total = 0;
  for (int k = 0; k <= r.N; ++k) {
    std::string at = w + ": at " + std::to_string(k);
    check(p.GetCostFunction(k) == r.cost[k], at + " cost");
    if (k < r.N && r.dyn[k]) check(p.GetDynamics(k) == r.dyn[k], at + " dynamics");
    if (k == r.N && r.dyn[r.N - 1])
      check(p.GetDynamics(k)->StateDimension() == r.term.first && p.GetDynamics(k)->ControlDimension() == r.term.second,
            at + " terminal dimensions");
    check(p.GetEqualityConstraints().at(k) == r.eq[k], at + " equality constraints");
    check(p.GetInequalityConstraints().at(k) == r.in[k], at + " inequality constraints");
    int n = 0;
    for (auto& c : r.eq[k]) n += c->OutputDimension();
    for (auto& c : r.in[k]) n += c->OutputDimension();
    check(p.NumConstraints(k) == n, at + " number of constraints");
    total += n;
  }
  check(p.NumConstraints() == total, w + ": total number of constraints");
  check(p.IsFullyDefined() == defined(r), w + ": completeness");
}
static void run(Gen& g) {
  Rec r;
  r.N = g.i(1, 6);
  int n = g.i(1, 4), m = g.i(1, 3);
  r.cost.resize(r.N + 1);
  r.dyn.resize(r.N + 1);
  r.eq.resize(r.N + 1);
  r.in.resize(r.N + 1);
  problem::Problem p(r.N);
  holds(p, r, "new");
  auto dim = [&] { return g.coin(0.9) ? n : n + 1; };
  auto newdyn = [&] { return std::make_shared<Dyn>(g, dim(), m); };
  auto keep = [&](int k, std::shared_ptr<problem::DiscreteDynamics> d) {
    r.dyn[k] = d;
    if (k == r.N - 1) r.term = {d->StateDimension(), d->ControlDimension()};
  };
  for (int step = 0; step < 25; ++step) {
    int op = g.i(0, 9);
    std::string w = "step " + std::to_string(step) + " op " + std::to_string(op);
    if (op == 0) {
      int k = g.i(0, r.N);
      r.cost[k] = std::make_shared<Quad>(g, n, m);
      p.SetCostFunction(r.cost[k], k);
    } else if (op == 1) {
      int k = g.i(0, r.N - 1);
      auto d = newdyn();
      keep(k, d);
      p.SetDynamics(d, k);
    } else if (op == 2) {
      int k = g.i(0, r.N);
      auto c = std::make_shared<Con<Eq>>(g.i(1, 4));
      r.eq[k].push_back(c);
      p.SetConstraint(c, k);
    } else if (op == 3) {
      int k = g.i(0, r.N);
      auto c = std::make_shared<Con<In>>(g.i(1, 4));
      r.in[k].push_back(c);
      p.SetConstraint(c, k);
    } else if (op == 4) {
      int s = g.i(0, r.N), len = g.i(0, r.N + 1 - s);
      std::vector<std::shared_ptr<Quad>> l;
      for (int i = 0; i < len; ++i) {
        l.push_back(std::make_shared<Quad>(g, n, m));
        r.cost[s + i] = l.back();
      }
      if (s == 0 && g.coin()) p.SetCostFunction(l);
      else p.SetCostFunction(l, s);
    } else if (op == 5) {
      int s = g.i(0, r.N - 1), len = g.i(0, r.N - s);
      std::vector<std::shared_ptr<Dyn>> l;
      for (int i = 0; i < len; ++i) {
        l.push_back(newdyn());
        keep(s + i, l.back());
      }
      if (s == 0 && g.coin()) p.SetDynamics(l);
      else p.SetDynamics(l, s);
    } else if (op == 6) {
      r.x0 = g.vec(g.coin(0.9) ? n : n + 1);
      p.SetInitialState(r.x0);
    } else if (op == 7) {
      problem::Problem c(p);
      holds(c, r, w + " copy");
      problem::Problem d(g.i(1, 9));
      d = p;
      holds(d, r, w + " copy assignment");
      if (g.coin()) {
        c.SetCostFunction(std::make_shared<Quad>(g, n, m), g.i(0, r.N));
        c.SetInitialState(g.vec(n));
        c.SetConstraint(std::make_shared<Con<In>>(2), g.i(0, r.N));
      }
    } else if (op == 8) {
      problem::Problem c(p), d(p), f(g.i(1, 9));
      problem::Problem e(std::move(c));
      holds(e, r, w + " move");
      f = std::move(d);
      holds(f, r, w + " move assignment");
    } else if (step % 5 == 0) {
      int bad = g.coin() ? -g.i(1, 3) : r.N + g.i(1, 3);
      int what = g.i(0, 4);
      check(refuses([&] {
              if (what == 0) p.SetCostFunction(std::make_shared<Quad>(g, n, m), bad);
              if (what == 1) p.SetDynamics(std::make_shared<Dyn>(g, n, m), g.coin() ? bad : r.N);
              if (what == 2) p.SetConstraint(std::make_shared<Con<Eq>>(1), bad);
              if (what == 3) p.SetConstraint(std::make_shared<Con<In>>(1), bad);
              if (what == 4) p.SetDynamics(std::shared_ptr<problem::DiscreteDynamics>(), g.i(0, r.N - 1));
            }),
            w + ": invalid index or null is refused", std::to_string(what) + " " + std::to_string(bad));
    }
    holds(p, r, w);
  }
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(300); ++i) run(g);
  return finish();
}
