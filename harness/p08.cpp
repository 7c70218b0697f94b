// augmented cost, gradient and Hessian against the formulas
#include "al.hpp"
template <class C>
void run(Gen& g) {
  C c(g);
  typename C::Solver s(*c.prob);
  c.shuffle(s, false);
  for (int k = 0; k <= c.N; ++k)
    for (int rep = 0; rep < 2; ++rep) {
      int n = c.n, m = c.m;
      VectorXd x = g.vec(n), u = g.vec(m);
      double J = c.cost[k]->F(x, u);
      VectorXd dx = c.cost[k]->Dx(x, u), du = c.cost[k]->Du(x, u);
      MatrixXd xx = c.cost[k]->Dxx(x, u), xu = c.cost[k]->Dxu(x, u), uu = c.cost[k]->Duu(x, u);
      auto add = [&](auto& l, auto* cone) {
        for (auto& r : l) {
          double rho = r.rho(0);
          VectorXd z = r.lam - rho * r.con->F(x, u), P = dual(cone, z);
          MatrixXd G = mask(cone, z).asDiagonal() * r.con->J(x, u), Gx = G.leftCols(n), Gu = G.rightCols(m);
          J += (P.squaredNorm() - r.lam.squaredNorm()) / (2 * rho);
          dx -= Gx.transpose() * P;
          du -= Gu.transpose() * P;
          xx += rho * Gx.transpose() * Gx;
          xu += rho * Gx.transpose() * Gu;
          uu += rho * Gu.transpose() * Gu;
        }
      };
      add(c.eq[k], (Eq*)0);
      add(c.in[k], (In*)0);
      auto f = s.GetALCost(k);
      std::string at = c.tag + "at " + std::to_string(k) + " ";
      for (int order = 0; order < 2; ++order) {
        VectorXd a = VectorXd::Zero(n), b = VectorXd::Zero(m);
        MatrixXd A = MatrixXd::Zero(n, n), B = MatrixXd::Zero(n, m), D = MatrixXd::Zero(m, m);
        if (g.coin()) near(f->Evaluate(x, u), J, at + "cost", 1e-9);
        f->Gradient(x, u, a, b);
        near(a, dx, at + "state gradient", 1e-9);
        near(b, du, at + "control gradient", 1e-9);
        if (g.coin()) near(f->Evaluate(x, u), J, at + "cost", 1e-9);
        f->Hessian(x, u, A, B, D);
        near(A, xx, at + "state Hessian", 1e-9);
        near(B, xu, at + "mixed Hessian", 1e-9);
        near(D, uu, at + "control Hessian", 1e-9);
      }
    }
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(250); ++i) {
    run<DynAL>(g);
    run<StaticAL>(g);
  }
  return finish();
}
