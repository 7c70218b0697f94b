// backward sweeps, with factorisation failures at arbitrary knot points
#include "ref.hpp"
template <class C>
void run(Gen& g, int hard) {
  C c(g, hard);
  auto& o = c.s->GetOptions();
  o.bp_reg_initial = g.coin() ? 0.0 : std::pow(10, g.u(-6, 0));
  o.bp_reg_increase_factor = g.u(1.2, 3);
  o.bp_reg_max = std::pow(10, g.u(1, 8));
  o.bp_reg_fail_threshold = g.i(1, 20);
  c.s->SolveSetup();
  int passes = g.i(1, 3);
  for (int p = 0; p < passes; ++p) {
    c.s->UpdateExpansions();
    double before = c.s->GetRegularization(), margin = 1e300;
    bool first = c.sweep(before, &margin);
    double m3 = 1e300;
    bool hopeless = !c.sweep(o.bp_reg_max, &m3);
    c.s->BackwardPass();
    bool failed = c.s->GetStatus() == SolverStatus::kBackwardPassRegularizationFailed;
    if (hopeless && !first && m3 > 1e-8 && c.s->GetRegularization() >= o.bp_reg_max / o.bp_reg_increase_factor * (1 - 1e-9))
      check(failed || c.rho_used() < o.bp_reg_max * (1 - 1e-9), c.tag + "hopeless sweep reports failure");
    if (failed) {
      check(hopeless || m3 < 1e-8 || o.bp_reg_fail_threshold == 1, c.tag + "failure reported although the maximum regularisation works");
      return;
    }
    check(c.s->GetStatus() == SolverStatus::kUnsolved, c.tag + "status after a complete sweep");
    double rho = c.rho_used();
    double scale = 1 + c.s->GetKnotPointFunction(0).GetActionValueExpansion().dudu().cwiseAbs().maxCoeff();
    if (first && margin > 1e-8) check(std::abs(rho - before) <= 1e-9 * (scale + before), c.tag + "first sweep uses the current regularisation");
    if (!first && margin > 1e-8) check(rho > before * (1 + 1e-12) - 1e-9 * scale && rho >= std::min(before + 1e-12, o.bp_reg_max) - 1e-9 * scale, c.tag + "a failed sweep raises the regularisation");
    for (int k = 0; k < c.N; ++k) {
      auto& f = c.s->GetKnotPointFunction(k);
      near(f.GetActionValueExpansionRegularized().dudu(), f.GetActionValueExpansion().dudu() + rho * MatrixXd::Identity(c.m, c.m),
           c.tag + "common regularisation", 1e-6);
    }
    c.policy(rho, "sweep");
    // the expected decrease shows in the acceptance ratio z = (J0 - J) / expected
    double d1 = 0, d2 = 0;
    for (int k = 0; k < c.N; ++k) {
      double a = c.s->GetKnotPointFunction(k).GetCostToGoDelta(1.0), b = c.s->GetKnotPointFunction(k).GetCostToGoDelta(2.0);
      d1 += (4 * a - b) / 2;
      d2 += (b - 2 * a) / 2;
    }
    double J0 = c.s->GetCosts().sum();
    o.line_search_lower_bound = 1e-12;
    o.line_search_upper_bound = 1e12;
    c.s->ForwardPass();
    auto& st = c.s->GetStats();
    if (c.s->GetStatus() == SolverStatus::kUnsolved && !st.improvement_ratio.empty() && c.s->Cost() < J0) {
      double al = st.alpha.back(), z = st.improvement_ratio.back(), J = c.s->Cost(), want = -al * (d1 + al * d2);
      if (std::abs(J0 - J) > 1e-6 * (1 + std::abs(J0)) && want > 1e-9)
        near(z, (J0 - J) / want, c.tag + "expected decrease is that of the accepted sweep", 1e-5);
    }
  }
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(150); ++i) {
    run<DynCase>(g, i % 3);
    run<StaticCase>(g, i % 3);
  }
  return finish();
}
