// constrained solves: verdict against the trajectory, the inner solver and the limits; phases in order
#include "al.hpp"
template <class C>
void verdict(Gen& g) {          // IsDone on every combination of history, limits and inner status
  C c(g);
  typename C::Solver s(*c.prob);
  s.SetTrajectory(c.Z);
  auto& o = s.GetOptions();
  auto& st = s.GetStats();
  s.Init();
  o.constraint_tolerance = 1e-3;
  o.maximum_penalty = 100;
  o.max_iterations_outer = g.i(1, 6);
  o.max_iterations_total = g.i(1, 20);
  // an inner status: let the inner solver end for a known reason
  auto& in = s.GetiLQRSolver();
  o.max_iterations_inner = g.coin() ? 1 : 40;
  o.cost_tolerance = o.gradient_tolerance = g.coin() ? 1e9 : 1e-3;
  in.Solve();
  SolverStatus inner = in.GetStatus();
  double viol = g.coin() ? g.u(0, 0.9e-3) : g.u(1.1e-3, 1), pen = g.coin() ? g.u(1, 99) : g.u(101, 200);
  if (g.coin(0.2)) pen = 100;
  if (g.coin(0.1)) viol = 1e-3;
  st.violations.assign(g.i(1, 3), g.coin() ? 0 : 5);
  st.max_penalty.assign(g.i(1, 3), g.coin() ? 1 : 500);
  st.violations.back() = viol;
  st.max_penalty.back() = pen;
  st.iterations_outer = g.i(0, 8);
  st.iterations_total = g.i(0, 25);
  SolverStatus before = s.GetStatus(), want = before;
  bool stop = true;
  if (inner != SolverStatus::kSolved) want = inner;
  else if (viol < 1e-3) want = SolverStatus::kSolved;
  else if (pen > 100) want = SolverStatus::kMaxPenalty;
  else if (st.iterations_outer >= o.max_iterations_outer) want = SolverStatus::kMaxOuterIterations;
  else if (st.iterations_total >= o.max_iterations_total) want = SolverStatus::kMaxIterations;
  else stop = false;
  bool r = s.IsDone();
  check(r == stop, c.tag + "stop verdict");
  check(s.GetStatus() == want, c.tag + "status", "got " + std::to_string(int(s.GetStatus())) + " expected " + std::to_string(int(want)));
}
template <class C>
void options(Gen& g, typename C::Solver& s, unsigned sd) {
  Gen q(sd);
  auto& o = s.GetOptions();
  o.max_iterations_outer = q.i(1, 12);
  o.max_iterations_inner = q.coin(0.2) ? q.i(1, 3) : 60;
  o.max_iterations_total = q.coin(0.3) ? q.i(1, 40) : 300;
  o.constraint_tolerance = std::pow(10, q.u(-6, -1));
  o.cost_tolerance = std::pow(10, q.u(-6, -2));
  o.gradient_tolerance = std::pow(10, q.u(-4, 0));
  o.initial_penalty = q.coin() ? q.u(0.5, 10) : -1;
  o.reset_duals = q.coin();
  o.maximum_penalty = q.coin(0.3) ? q.u(5, 1000) : 1e8;
}
template <class C>
void solve(Gen& g, bool mild) {
  C c(g, 2, 0.05, mild);
  typename C::Solver a(*c.prob), b(*c.prob);
  auto za = std::make_shared<std::decay_t<decltype(*c.Z)>>(*c.Z), zb = std::make_shared<std::decay_t<decltype(*c.Z)>>(*c.Z);
  a.SetTrajectory(za);
  b.SetTrajectory(zb);
  for (int q = 0; q < 2; ++q) {
    unsigned sd = g.i(0, 1 << 30);
    options<C>(g, a, sd);
    options<C>(g, b, sd);
    if (q) {
      a.Init();
      check(a.GetStatus() == SolverStatus::kUnsolved, c.tag + "a solve starts unsolved");
    }
    a.Solve();
    // the phases, one after the other
    if (q) b.Init();
    b.Init();
    int outer = 0;
    bool stopped = false;
    for (; outer < b.GetOptions().max_iterations_outer && !stopped; ++outer) {
      b.GetiLQRSolver().Solve();
      b.UpdateDuals();
      b.UpdateConvergenceStatistics();
      stopped = b.IsDone();
      if (!stopped) b.UpdatePenalties();
    }
    auto& st = a.GetStats();
    auto& o = a.GetOptions();
    SolverStatus s = a.GetStatus(), inner = a.GetiLQRSolver().GetStatus();
    check(s == b.GetStatus(), c.tag + "status is that of the phases run one after the other",
          std::to_string(int(s)) + " " + std::to_string(int(b.GetStatus())));
    check(st.iterations_outer == b.GetStats().iterations_outer && st.iterations_outer == outer, c.tag + "number of outer iterations");
    check(st.iterations_total == b.GetStats().iterations_total, c.tag + "number of iterations");
    for (int k = 0; k <= c.N; ++k) {
      auto fa = a.GetALCost(k), fb = b.GetALCost(k);
      for (size_t i = 0; i < fa->GetEqualityConstraints().size(); ++i) {
        near(fa->GetEqualityConstraints()[i]->GetDuals(), fb->GetEqualityConstraints()[i]->GetDuals(), c.tag + "multipliers", 1e-12);
        near(fa->GetEqualityConstraints()[i]->GetPenalty(), fb->GetEqualityConstraints()[i]->GetPenalty(), c.tag + "penalties", 1e-12);
      }
      for (size_t i = 0; i < fa->GetInequalityConstraints().size(); ++i) {
        near(fa->GetInequalityConstraints()[i]->GetDuals(), fb->GetInequalityConstraints()[i]->GetDuals(), c.tag + "multipliers", 1e-12);
        near(fa->GetInequalityConstraints()[i]->GetPenalty(), fb->GetInequalityConstraints()[i]->GetPenalty(), c.tag + "penalties", 1e-12);
      }
      near(za->State(k), zb->State(k), c.tag + "trajectory", 1e-12);
      near(za->Control(k), zb->Control(k), c.tag + "trajectory", 1e-12);
    }
    check(s != SolverStatus::kUnsolved, c.tag + "ends with a verdict");
    c.evaluate(*za);
    double viol = c.violation();
    near(st.violations.back(), viol, c.tag + "logged violation is that of the returned trajectory", 1e-9);
    near(st.max_penalty.back(), a.GetMaxPenalty(), c.tag + "logged penalty", 1e-12);
    if (s == SolverStatus::kSolved) {
      check(inner == SolverStatus::kSolved, c.tag + "solved although the inner solver did not");
      check(viol < o.constraint_tolerance, c.tag + "solved although the trajectory is infeasible", std::to_string(viol));
    }
    if (inner != SolverStatus::kSolved) check(s == inner, c.tag + "failure of the inner solver is reported");
    if (s == SolverStatus::kMaxPenalty) check(a.GetMaxPenalty() > o.maximum_penalty, c.tag + "penalty limit reported early");
    if (s == SolverStatus::kMaxOuterIterations) check(st.iterations_outer == o.max_iterations_outer, c.tag + "outer limit reported early");
    if (s == SolverStatus::kMaxIterations && inner == SolverStatus::kSolved)
      check(st.iterations_total >= o.max_iterations_total, c.tag + "total limit reported early");
  }
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(150); ++i) {
    verdict<DynAL>(g);
    verdict<StaticAL>(g);
    solve<DynAL>(g, i % 2);
    solve<StaticAL>(g, i % 2);
  }
  return finish();
}
