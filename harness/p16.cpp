// expansions and costs at changing trajectories
#include "ref.hpp"
template <class C>
void run(Gen& g) {
  C c(g);
  for (int q = 0; q < 3; ++q) {
    if (g.coin(0.3)) {   // leftovers from anything else must not survive
      int k = g.i(0, c.N);
      auto& f = c.s->GetKnotPointFunction(k);
      f.GetCostExpansion().dxdx().setConstant(7);
      f.GetCostExpansion().du().setConstant(7);
      f.GetDynamicsExpansion().GetJacobian().setConstant(7);
      c.s->GetCosts().setConstant(5);
    }
    c.expansions();
    auto other = *c.Z;
    for (int k = 0; k <= c.N; ++k) {
      other.State(k) = g.vec(c.n);
      other.Control(k) = g.vec(c.m);
    }
    near(c.s->Cost(other), c.Cost(other), c.tag + "cost of a given trajectory");
    near(c.s->Cost(), c.Cost(*c.Z), c.tag + "cost of the current trajectory");
    for (int k = 0; k <= c.N; ++k) {
      c.Z->State(k) = g.vec(c.n);
      c.Z->Control(k) = g.vec(c.m);
      c.Z->SetTime(k, g.u(-2, 2));
      if (k < c.N) c.Z->SetStep(k, g.u(0.05, 0.5));
    }
  }
}
// the expansion objects on their own: filled from what they are given, reproduced by copies and moves
template <int n_, int m_>
void objects(Gen& g) {
  int n = n_ > 0 ? n_ : g.i(1, 5), m = m_ > 0 ? m_ : g.i(1, 4);
  auto dyn = std::make_shared<Dyn>(g, n, m);
  auto cost = std::make_shared<Quad>(g, n, m);
  KnotPoint<n_, m_> z(g.vec(n), g.vec(m), (float)g.u(-2, 2), (float)g.u(0.05, 0.5));
  VectorXd x = z.State(), u = z.Control();
  ilqr::CostExpansion<n_, m_> e(n, m), f(n, m);
  ilqr::DynamicsExpansion<n_, m_> d(n, m), b(n, m);
  MatrixXd H(n + m, n + m), H0 = MatrixXd::Zero(n, n), H1 = MatrixXd::Zero(n, m), H2 = MatrixXd::Zero(m, m), J = MatrixXd::Zero(n, n + m);
  VectorXd gx = VectorXd::Zero(n), gu = VectorXd::Zero(m);
  cost->Gradient(x, u, gx, gu);
  cost->Hessian(x, u, H0, H1, H2);
  dyn->Jacobian(x, u, z.GetTime(), z.GetStep(), J);
  auto is = [&](const ilqr::CostExpansion<n_, m_>& q, std::string w) {
    check(q.StateDimension() == n && q.ControlDimension() == m, w + ": dimensions");
    near(q.dxdx(), H0, w + " dxdx");
    near(q.dxdu(), H1, w + " dxdu");
    near(q.dudu(), H2, w + " dudu");
    near(q.dx(), gx, w + " dx");
    near(q.du(), gu, w + " du");
  };
  e.CalcExpansion(std::shared_ptr<problem::CostFunction>(cost), z);
  is(e, "cost expansion at a knot point");
  f.CalcExpansion(cost, x, u);
  is(f, "cost expansion at a state and control");
  d.CalcExpansion(std::shared_ptr<problem::DiscreteDynamics>(dyn), z);
  near(d.GetJacobian(), J, "dynamics expansion at a knot point");
  b.CalcExpansion(std::shared_ptr<problem::DiscreteDynamics>(dyn), x, u, z.GetTime(), z.GetStep());
  near(b.GetJacobian(), J, "dynamics expansion at a state and control");
  ilqr::CostExpansion<n_, m_> c1(e), c2(n, m);
  is(c1, "copied expansion");
  c2 = c1;
  is(c2, "assigned expansion");
  if (n_ < 0) {
    ilqr::CostExpansion<n_, m_> c4(n + 1, m + 2);
    c4 = c1;
    is(c4, "expansion assigned to one of another size");
    ilqr::CostExpansion<n_, m_> c6(n + 1, m + 2);
    c6 = ilqr::CostExpansion<n_, m_>(c1);
    is(c6, "expansion moved to one of another size");
  }
  is(c1, "source of the copies");
  ilqr::CostExpansion<n_, m_> c3(std::move(c1)), c5(n, m);
  is(c3, "moved expansion");
  c5 = std::move(c2);
  is(c5, "move-assigned expansion");
  c3.SetZero();
  check(c3.dxdx().isZero(0) && c3.dxdu().isZero(0) && c3.dudu().isZero(0) && c3.dx().isZero(0) && c3.du().isZero(0), "cleared expansion");
  d.SetZero();
  check(d.GetJacobian().isZero(0), "cleared dynamics expansion");
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(200); ++i) {
    run<DynCase>(g);
    run<StaticCase>(g);
    objects<-1, -1>(g);
    objects<4, 2>(g);
  }
  return finish();
}
