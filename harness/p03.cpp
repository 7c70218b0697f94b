// regularisation bounds over histories of backward and forward passes
#include "ref.hpp"
template <class C>
void run(Gen& g, int hard) {
  double wave = g.coin() ? 0.05 : 2.0;
  C c(g, hard, wave);
  auto& o = c.s->GetOptions();
  double lo = g.coin(0.3) ? 0.0 : std::pow(10, g.u(-8, -1)), hi = std::max(lo, std::pow(10, g.u(-1, 8)));
  double f = g.coin(0.2) ? 1.0 : g.u(1.05, 4);
  if (lo == 0.0 && (hard || wave > 1)) lo = 1e-8;   // growing from zero needs a positive minimum
  hi = std::max(lo, hi);
  o.bp_reg_min = lo;
  o.bp_reg_max = hi;
  o.bp_reg_increase_factor = f;
  o.bp_reg_initial = g.coin() ? 0.0 : g.u(lo, hi);
  o.bp_reg_fail_threshold = g.i(1, 5);
  if (f == 1.0 && hard) return;   // such a sweep may repeat for ever by design of its options
  if (g.coin()) {
    o.line_search_max_iterations = g.i(1, 4);
    if (g.coin()) o.line_search_lower_bound = 5;
  }
  c.s->SolveSetup();
  near(c.s->GetRegularization(), o.bp_reg_initial, c.tag + "initial regularisation", 0);
  auto in = [&](double r, std::string w) { check(r >= lo * (1 - 1e-12) && r <= hi * (1 + 1e-12), c.tag + w + " within bounds", std::to_string(r)); };
  double prev_growth = 0;
  (void)prev_growth;
  for (int p = 0; p < 6; ++p) {
    c.s->UpdateExpansions();
    double r0 = c.s->GetRegularization(), margin = 1e300;
    // failures the sweep must go through: regularisation has to rise to a working value
    bool first = c.sweep(r0, &margin);
    if ((f == 1.0 || lo == 0.0) && !(first && margin > 1e-8)) return;   // the options let such a sweep repeat for ever
    c.s->BackwardPass();
    double r1 = c.s->GetRegularization();
    double used = c.s->GetStats().regularization.back();
    in(r1, "after a backward pass");
    if (first && margin > 1e-8) near(used, r0, c.tag + "no failure, no increase", 1e-12);
    if (!first && margin > 1e-8) check(used >= std::min(hi, r0 * f) * (1 - 1e-9), c.tag + "a failed factorisation raises the regularisation by the factor",
                                       std::to_string(r0) + " -> " + std::to_string(used));
    if (f > 1) check(r1 <= std::max(lo, used) * (1 + 1e-9), c.tag + "the final decrease never raises it above the minimum");
    if (f > 1 && used > 0) check(r1 <= std::max(lo, std::min(used, std::max(used / f, lo)) ) * (1 + 1e-9), c.tag + "one decrease by at least the factor",
                                 std::to_string(used) + " -> " + std::to_string(r1));
    if (c.s->GetStatus() == SolverStatus::kBackwardPassRegularizationFailed) {
      near(used, hi, c.tag + "gives up only at the maximum", 1e-9);
      return;
    }
    VectorXd x1 = c.X(*c.Z, c.N), u0 = c.U(*c.Z, 0);
    double J0 = c.Cost(*c.Z);
    c.s->ForwardPass();
    double r2 = c.s->GetRegularization();
    in(r2, "after a forward pass");
    bool moved = (c.X(*c.Z, c.N) - x1).norm() + (c.U(*c.Z, 0) - u0).norm() > 0;
    if (moved && c.Cost(*c.Z) < J0) near(r2, r1, c.tag + "accepted step leaves it", 0);
    if (!moved) check(r2 >= std::min(hi, r1 * f) * (1 - 1e-9), c.tag + "failed line search raises it", std::to_string(r1) + " -> " + std::to_string(r2));
  }
}
// convex problem: every sweep succeeds; forced line-search failures. The regularisation must follow the factor rule exactly.
template <class C>
void automaton(Gen& g) {
  C c(g, 0, 0.05);
  auto& o = c.s->GetOptions();
  o.bp_reg_min = std::pow(10, g.u(-8, -1));
  o.bp_reg_max = std::pow(10, g.u(0, 6));
  o.bp_reg_increase_factor = g.u(1.05, 4);
  o.bp_reg_initial = g.coin() ? 0.0 : g.u(o.bp_reg_min, o.bp_reg_max);
  const double f = o.bp_reg_increase_factor;
  c.s->SolveSetup();
  c.s->UpdateExpansions();
  double rho = o.bp_reg_initial, growth = 0;
  std::string w;
  c.s->BackwardPass();
  growth = std::min(growth / f, 1 / f);
  rho = std::max(rho * growth, o.bp_reg_min);
  near(c.s->GetRegularization(), rho, c.tag + "first backward pass", 1e-12);
  for (int p = 0; p < 12; ++p) {
    bool back = g.coin(0.4);
    w += back ? "b" : "f";
    if (back) {
      c.s->BackwardPass();
      growth = std::min(growth / f, 1 / f);
      rho = std::max(rho * growth, o.bp_reg_min);
    } else {
      o.line_search_max_iterations = 0;
      c.s->ForwardPass();
      growth = std::max(growth * f, f);
      rho = std::min(std::max(rho * growth, o.bp_reg_min), o.bp_reg_max);
    }
    if (!near(c.s->GetRegularization(), rho, c.tag + "after passes " + w + ": factor rule", 1e-9)) return;
  }
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(200); ++i) {
    run<DynCase>(g, i % 3);
    run<StaticCase>(g, i % 3);
    automaton<DynCase>(g);
    automaton<StaticCase>(g);
  }
  return finish();
}
