// line searches against an independent replay, then whole solves
#include "ref.hpp"
template <class C>
void run(Gen& g, int hard) {
  C c(g, hard, g.coin() ? 0.1 : 3.0);
  auto& o = c.s->GetOptions();
  o.line_search_max_iterations = g.i(0, 12);
  o.line_search_decrease_factor = g.u(1.3, 4);
  o.line_search_lower_bound = g.coin() ? 1e-8 : g.u(0, 1.5);
  o.line_search_upper_bound = g.coin() ? 10 : g.u(0.5, 3);
  if (g.coin(0.3)) o.control_max = g.u(0.3, 3);
  if (g.coin(0.3)) o.state_max = g.u(0.5, 5);
  c.s->SolveSetup();
  for (int p = 0; p < 3; ++p) {
    c.s->UpdateExpansions();
    c.s->BackwardPass();
    bool bp = c.s->GetStatus() == SolverStatus::kBackwardPassRegularizationFailed;
    if (!bp && g.coin(0.3))
      for (int k = 0; k < c.N; ++k) c.s->GetKnotPointFunction(k).GetFeedforwardGain() *= g.u(-2, 3);
    double J0 = c.s->GetCosts().sum(), d1 = 0, d2 = 0, rho = c.s->GetRegularization();
    for (int k = 0; k < c.N; ++k) {
      double a = c.s->GetKnotPointFunction(k).GetCostToGoDelta(1.0), b = c.s->GetKnotPointFunction(k).GetCostToGoDelta(2.0);
      d1 += (4 * a - b) / 2;
      d2 += (b - 2 * a) / 2;
    }
    bool sure = true, acc = false;
    double al = 1;
    typename C::Trial t, last;
    last.ok = true;
    for (int i = 0; i < o.line_search_max_iterations && !acc && !bp; ++i, al /= o.line_search_decrease_factor) {
      t = c.trial(al);
      last = t;
      if (t.margin < 1e-9) sure = false;
      if (!t.ok) continue;
      double ex = -al * (d1 + al * d2), z = ex > 0 ? (J0 - t.J) / ex : -1.0;
      double tol = 1e-7 * (1 + std::abs(J0));
      if (std::abs(J0 - t.J) < tol || std::abs(ex) < 1e-8 || std::abs(z - o.line_search_lower_bound) < 1e-5 * (1 + std::abs(z)) ||
          std::abs(z - o.line_search_upper_bound) < 1e-5 * (1 + std::abs(z)))
        sure = false;
      acc = z >= o.line_search_lower_bound && z <= o.line_search_upper_bound && t.J < J0;
    }
    Trajectory<Eigen::Dynamic, Eigen::Dynamic> dummy(1, 1, 1);
    auto before = *c.Z;
    c.s->ForwardPass();
    double now = c.Cost(*c.Z);
    bool moved = false;
    for (int k = 0; k <= c.N; ++k) moved = moved || (c.X(*c.Z, k) - c.X(before, k)).norm() > 0 || (k < c.N && (c.U(*c.Z, k) - c.U(before, k)).norm() > 0);
    check(!moved || now < J0 + 1e-9 * (1 + std::abs(J0)), c.tag + "replaced by a trajectory that is not cheaper", std::to_string(J0) + " -> " + std::to_string(now));
    if (moved) near(c.s->GetStats().cost.back(), now, c.tag + "logged cost of the accepted trajectory");
    else near(c.s->GetStats().cost.back(), J0, c.tag + "logged cost without progress");
    if (bp) {
      check(!moved, c.tag + "moved without a policy");
      return;
    }
    if (sure) {
      check(moved == acc, c.tag + (acc ? "qualifying step not taken" : "non-qualifying step taken"));
      if (acc && moved) {
        for (int k = 0; k < c.N; ++k) {
          near(c.X(*c.Z, k + 1), t.x[k + 1], c.tag + "accepted state");
          near(c.U(*c.Z, k), t.u[k], c.tag + "accepted control");
        }
        check(c.s->GetStatus() == SolverStatus::kUnsolved, c.tag + "status after an accepted step");
      }
      if (!acc) {
        c.same(*c.Z, before, "trajectory kept");
        check(c.s->GetRegularization() >= std::min(o.bp_reg_max, rho) && c.s->GetRegularization() > 0, c.tag + "regularisation raised");
        if (o.line_search_max_iterations > 0)
          check(c.s->GetStatus() == last.why, c.tag + "status of the last trial is kept");
        VectorXd costs = c.s->GetCosts();
        near(costs.sum(), J0, c.tag + "costs of the kept trajectory");
      }
    }
    double c0 = c.s->Cost();
    near(c0, c.Cost(*c.Z), c.tag + "cost");
    if (c.s->GetStatus() != SolverStatus::kUnsolved) c.s->SolveSetup();
  }
}
template <class C>
void solve(Gen& g, int hard) {
  C c(g, hard, g.coin() ? 0.1 : 3.0);
  auto& o = c.s->GetOptions();
  o.max_iterations_inner = g.i(1, 20);
  if (g.coin(0.3)) o.line_search_lower_bound = g.u(0, 2);
  if (g.coin(0.2)) o.control_max = g.u(0.5, 3);
  auto z = *c.Z;
  z.State(0) = c.x0;
  for (int k = 0; k < c.N; ++k) z.State(k + 1) = c.Next(z, k, c.X(z, k), c.U(z, k));
  double J0 = c.Cost(z);
  c.s->Solve();
  check(c.Cost(*c.Z) <= J0 + 1e-9 * (1 + std::abs(J0)), c.tag + "solve returns a costlier trajectory", std::to_string(J0) + " -> " + std::to_string(c.Cost(*c.Z)));
  near(c.s->GetStats().initial_cost, J0, c.tag + "initial cost");
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(250); ++i) {
    run<DynCase>(g, i % 4 == 3 ? 1 : 0);
    run<StaticCase>(g, i % 4 == 3 ? 1 : 0);
    if (i % 4 == 0) solve<DynCase>(g, i % 3);
    if (i % 4 == 1) solve<StaticCase>(g, i % 3);
  }
  return finish();
}
