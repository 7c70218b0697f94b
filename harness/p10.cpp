// cone projections, their duals and derivatives
#include <type_traits>
#include "gen.hpp"
using namespace altro::constraints;  // NOLINT
static_assert(std::is_same<ZeroCone::DualCone, IdentityCone>::value, "dual of the zero cone");
static_assert(std::is_same<IdentityCone::DualCone, ZeroCone>::value, "dual of the identity cone");
static_assert(std::is_same<NegativeOrthant::DualCone, NegativeOrthant>::value, "dual of the orthant");
template <class C, class P, class D>
void run(Gen& g, int p, const std::string& name, P proj, D diag) {
  VectorXd x = g.vec(p, std::pow(10, g.u(-8, 8))), b = g.vec(p), r = g.vec(p), want(p);
  for (int i = 0; i < p; ++i)
    if (g.coin(0.15)) x(i) = 0.0;
    else if (g.coin(0.15)) x(i) *= std::pow(10, g.u(-290, 290));
  for (int i = 0; i < p; ++i) want(i) = proj(x(i));
  VectorXd x0 = x;
  C::Projection(x, r);
  near(r, want, name + " projection", 0);
  near(x, x0, name + " argument", 0);
  MatrixXd J = MatrixXd::Zero(p, p), W = MatrixXd::Zero(p, p), H = g.mat(p, p);
  for (int i = 0; i < p; ++i) W(i, i) = diag(x(i));
  C::Jacobian(x, J);
  near(J, W, name + " Jacobian", 0);
  C::Hessian(x, b, H);
  near(H, MatrixXd::Zero(p, p), name + " Hessian", 0);
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(2000); ++i) {
    int p = i < 40 ? i + 1 : g.i(1, 70);
    run<ZeroCone>(g, p, "zero cone", [](double) { return 0.0; }, [](double) { return 0.0; });
    run<IdentityCone>(g, p, "identity cone", [](double v) { return v; }, [](double) { return 1.0; });
    run<NegativeOrthant>(g, p, "orthant", [](double v) { return v < 0 ? v : 0.0; }, [](double v) { return v > 0 ? 0.0 : 1.0; });
  }
  return finish();
}
