// lowering of the constrained problem, and what a solve starts from
#include "al.hpp"
template <class C>
void lowered(C& c, typename C::Solver& s, const std::string& w) {
  check(s.NumSegments() == c.N, c.tag + w + " horizon");
  int total = 0;
  for (int k = 0; k <= c.N; ++k) {
    std::string at = c.tag + w + " at " + std::to_string(k) + " ";
    auto f = s.GetALCost(k);
    check(f->GetCostFunction() == c.cost[k], at + "cost");
    check(f->StateDimension() == c.n && f->ControlDimension() == c.m, at + "dimensions");
    int n = 0;
    for (auto& r : c.eq[k]) n += r.rho.size();
    for (auto& r : c.in[k]) n += r.rho.size();
    check(s.NumConstraints(k) == n && f->NumConstraints() == n, at + "number of constraints");
    total += n;
    auto& kp = s.GetiLQRSolver().GetKnotPointFunction(k);
    check(kp.GetCostFunPtr() == f, at + "inner cost is the augmented one");
    if (k < c.N) check(kp.GetModelPtr() == c.dyn[k], at + "inner dynamics");
  }
  check(s.NumConstraints() == total, c.tag + w + " number of constraints");
  c.holds(s, w, 0);
}
template <class C>
void run(Gen& g) {
  C c(g, g.coin() ? 2 : 5, 0.05, g.coin(0.3));
  std::unique_ptr<typename C::Solver> s;
  if (g.coin()) {
    s = std::make_unique<typename C::Solver>(*c.prob);
  } else {
    s = std::make_unique<typename C::Solver>(c.N);
    s->InitializeFromProblem(*c.prob);
  }
  lowered(c, *s, "lowered");
  s->SetTrajectory(c.Z);
  auto& o = s->GetOptions();
  // the initial state is shared
  VectorXd x1 = g.vec(c.n);
  c.prob->SetInitialState(x1);
  s->GetiLQRSolver().Rollout();
  near(c.Z->State(0), x1, c.tag + "initial state is the problem's", 0);
  if (g.coin()) {
    c.shuffle(*s, false);
    s->GetStats().Log("cost", 3.0);
    s->GetStats().iterations_outer = 4;
    s->GetStats().iterations_total = 5;
    s->GetStats().iterations_inner = 6;
  }
  o.reset_duals = g.coin();
  o.initial_penalty = g.coin() ? g.u(0.1, 5) : g.coin() ? 0 : -1;
  s->Init();
  auto start = [&](auto& r) {
    if (o.reset_duals) r.lam.setZero();
    if (o.initial_penalty > 0) r.rho.setConstant(o.initial_penalty);
  };
  for (auto& l : c.eq)
    for (auto& r : l) start(r);
  for (auto& l : c.in)
    for (auto& r : l) start(r);
  c.holds(*s, "start of a solve", 0);
  auto& st = s->GetStats();
  check(st.iterations_outer == 0 && st.iterations_total == 0 && st.iterations_inner == 0, c.tag + "counters start at zero");
  check(st.cost.size() <= 1 && st.violations.size() == 1 && st.max_penalty.size() == 1, c.tag + "history starts empty");
  check(s->GetStatus() == SolverStatus::kUnsolved, c.tag + "status starts unsolved");
  c.evaluate(*c.Z);
  near(st.violations.back(), c.violation(), c.tag + "initial violation is logged");
  near(st.max_penalty.back(), c.penalty(), c.tag + "initial penalty is logged");
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(250); ++i) {
    run<DynAL>(g);
    run<StaticAL>(g);
  }
  return finish();
}
