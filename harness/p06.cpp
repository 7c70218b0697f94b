// termination status against the statistics and limits
#include "ref.hpp"
template <class C>
void check_done(Gen& g) {
  C c(g);
  auto& o = c.s->GetOptions();
  auto& st = c.s->GetStats();
  c.s->SolveSetup();
  c.s->UpdateExpansions();
  c.s->BackwardPass();
  int raise = g.i(0, 4);
  SolverStatus s0 = SolverStatus::kUnsolved;
  if (raise >= 3) {
    if (raise == 3) o.state_max = 1e-9;
    else o.control_max = 1e-9;
    if (c.x0.norm() > 1e-3) {
      for (int k = 0; k < c.N; ++k) c.s->GetKnotPointFunction(k).GetFeedforwardGain().setConstant(3.0);
      bool r = c.s->RolloutClosedLoop(1.0);
      (void)r;
      s0 = c.s->GetStatus();
    }
  }
  o.cost_tolerance = 1e-4;
  o.gradient_tolerance = 1e-2;
  double dJ = g.coin() ? g.u(-1e-4, 0.9e-4) : g.u(1.1e-4, 1), gr = g.coin() ? g.u(0, 0.9e-2) : g.u(1.1e-2, 1);
  st.cost_decrease.assign(3, g.coin() ? 0.0 : 1.0);
  st.gradient.assign(3, g.coin() ? 0.0 : 1.0);
  st.cost_decrease.back() = dJ;
  st.gradient.back() = gr;
  o.max_iterations_inner = g.i(1, 5);
  o.max_iterations_total = g.i(1, 8);
  st.iterations_inner = g.i(0, 7);
  st.iterations_total = g.i(0, 9);
  bool r = c.s->IsDone();
  SolverStatus want = s0;
  if (s0 == SolverStatus::kUnsolved) {
    if (dJ < 1e-4 && gr < 1e-2) want = SolverStatus::kSolved;
    else if (st.iterations_inner >= o.max_iterations_inner) want = SolverStatus::kMaxInnerIterations;
    else if (st.iterations_total >= o.max_iterations_total) want = SolverStatus::kMaxIterations;
  }
  check(c.s->GetStatus() == want, c.tag + "status", "got " + std::to_string(int(c.s->GetStatus())) + " expected " + std::to_string(int(want)));
  check(r == (want != SolverStatus::kUnsolved), c.tag + "stop verdict");
}
template <class C>
void solve(Gen& g, int hard) {
  C c(g, hard, g.coin() ? 0.1 : 2.0);
  auto& o = c.s->GetOptions();
  auto& st = c.s->GetStats();
  o.max_iterations_inner = g.i(1, 12);
  o.max_iterations_total = g.i(1, 30);
  o.cost_tolerance = std::pow(10, g.u(-8, -1));
  o.gradient_tolerance = std::pow(10, g.u(-6, 0));
  if (hard == 2) o.bp_reg_fail_threshold = g.i(1, 4);
  if (g.coin(0.2)) o.control_max = g.u(0.5, 3);
  if (g.coin(0.2)) o.line_search_max_iterations = g.i(0, 3);
  int before = 0;
  bool zero_gain = g.coin(0.2);
  for (int q = 0; q < 2; ++q) {
    if (q == 1 && g.coin())   // a later solve from somewhere else
      for (int k = 0; k < c.N; ++k) c.Z->Control(k) = g.vec(c.m);
    before = st.iterations_total;
    c.s->Solve();
    int in = st.iterations_inner;
    SolverStatus s = c.s->GetStatus();
    check(in >= 1 && in <= o.max_iterations_inner, c.tag + "number of inner iterations", std::to_string(in));
    check(st.iterations_total == before + in, c.tag + "iteration counters grow together");
    check(s != SolverStatus::kUnsolved, c.tag + "ends with a verdict");
    check(st.iterations_total <= std::max(o.max_iterations_total, before + 1), c.tag + "goes on past the total limit");
    double J = c.Cost(*c.Z);
    if (s == SolverStatus::kSolved) {
      check(st.cost_decrease.back() < o.cost_tolerance, c.tag + "solved without a small cost decrease");
      check(st.gradient.back() < o.gradient_tolerance, c.tag + "solved without a small gradient");
    }
    if (s == SolverStatus::kMaxInnerIterations) check(in == o.max_iterations_inner, c.tag + "inner limit reported early");
    if (s == SolverStatus::kMaxIterations) check(st.iterations_total >= o.max_iterations_total, c.tag + "total limit reported early");
    if (hard == 2 && !c.sweep(o.bp_reg_max)) {
      double mg = 1e300;
      c.sweep(o.bp_reg_max, &mg);
      if (mg > 1e-6) check(s != SolverStatus::kSolved, c.tag + "success although the backward pass cannot work");
    }
    // statistics
    size_t L = st.cost.size();
    if (L >= 3 && in >= 2) {   // the last record is the open one, a copy of the one before
      size_t D = st.cost_decrease.size();
      near(st.cost_decrease[D - 1], st.cost[L - 3] - st.cost[L - 2], c.tag + "logged cost decrease", 1e-9);
    }
    if (in == 1) near(st.cost_decrease.back(), st.initial_cost - st.cost.back(), c.tag + "logged first cost decrease", 1e-9);
    near(st.cost.back(), J, c.tag + "logged cost");
    (void)zero_gain;
    double gsum = 0;
    for (int k = 0; k < c.N; ++k) {
      VectorXd d = c.s->GetKnotPointFunction(k).GetFeedforwardGain(), u = c.U(*c.Z, k);
      double mx = 0;
      for (int i = 0; i < c.m; ++i) mx = std::max(mx, std::abs(d(i)) / (std::abs(u(i)) + 1));
      gsum += mx;
    }
    near(st.gradient.back(), gsum / c.N, c.tag + "logged gradient");
    near(c.s->NormalizedFeedforwardGain(), gsum / c.N, c.tag + "gradient measure");
  }
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(250); ++i) {
    check_done<DynCase>(g);
    check_done<StaticCase>(g);
    solve<DynCase>(g, i % 3);
    solve<StaticCase>(g, i % 3);
  }
  return finish();
}
