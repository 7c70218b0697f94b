// dual and penalty updates, setters and resets against a record
#include "al.hpp"
template <class C>
void run(Gen& g) {
  C c(g);
  typename C::Solver s(*c.prob);
  s.SetTrajectory(c.Z);
  c.holds(s, "initial");
  auto pen = [&](auto& l, double rho) { for (auto& r : l) r.rho.setConstant(rho); };
  auto sc = [&](auto& l, double phi) { for (auto& r : l) r.phi = phi; };
  for (int step = 0; step < 10; ++step) {
    int op = g.i(0, 8);
    std::string w = "after step " + std::to_string(step) + " op " + std::to_string(op);
    if (op == 0) {
      c.shuffle(s, g.coin());
    } else if (op == 1) {
      auto z = c.traj();
      s.MaxViolation(*z);
      c.evaluate(*z);
    } else if (op == 2) {
      s.UpdateDuals();
      for (auto& l : c.eq)
        for (auto& r : l) r.lam = r.lam - VectorXd(r.rho.cwiseProduct(r.c));
      for (auto& l : c.in)
        for (auto& r : l) r.lam = neg(r.lam - VectorXd(r.rho.cwiseProduct(r.c)));
    } else if (op == 3) {
      s.UpdatePenalties();
      for (auto& l : c.eq)
        for (auto& r : l) r.rho *= r.phi;
      for (auto& l : c.in)
        for (auto& r : l) r.rho *= r.phi;
    } else if (op == 4) {
      double rho = g.coin(0.2) ? 0.0 : g.u(0.1, 9);
      s.SetPenalty(rho);
      for (auto& l : c.eq) pen(l, rho);
      for (auto& l : c.in) pen(l, rho);
    } else if (op == 5) {
      double phi = g.u(1, 9);
      s.SetPenaltyScaling(phi);
      for (auto& l : c.eq) sc(l, phi);
      for (auto& l : c.in) sc(l, phi);
    } else if (op == 6) {
      s.ResetDualVariables();
      for (auto& l : c.eq)
        for (auto& r : l) r.lam.setZero();
      for (auto& l : c.in)
        for (auto& r : l) r.lam.setZero();
    } else {
      int k = g.i(0, c.N);
      auto f = s.GetALCost(k);
      double v = g.u(1, 9);
      bool e = g.coin();
      size_t len = e ? c.eq[k].size() : c.in[k].size();
      if (!len) continue;
      size_t i = g.i(0, len - 1);
      int what = g.i(0, 5);
      if (what % 2 == 0 && g.coin(0.2)) v = 0;      // a penalty may be zero
      if (what == 0) {
        e ? f->template SetPenalty<Eq>(v, i) : f->template SetPenalty<In>(v, i);
        (e ? c.eq[k][i].rho : c.in[k][i].rho).setConstant(v);
      } else if (what == 1) {
        e ? f->template SetPenaltyScaling<Eq>(v, i) : f->template SetPenaltyScaling<In>(v, i);
        (e ? c.eq[k][i].phi : c.in[k][i].phi) = v;
      } else if (what == 2) {
        e ? f->template SetPenalty<Eq>(v) : f->template SetPenalty<In>(v);
        if (e) pen(c.eq[k], v);
        else pen(c.in[k], v);
      } else if (what == 3) {
        e ? f->template SetPenaltyScaling<Eq>(v) : f->template SetPenaltyScaling<In>(v);
        if (e) sc(c.eq[k], v);
        else sc(c.in[k], v);
      } else if (what == 4) {
        f->ResetDualVariables();
        for (auto& r : c.eq[k]) r.lam.setZero();
        for (auto& r : c.in[k]) r.lam.setZero();
      } else {
        check(f->template NumConstraintFunctions<Eq>() == int(c.eq[k].size()), c.tag + "number of equality constraints");
        check(f->template NumConstraintFunctions<In>() == int(c.in[k].size()), c.tag + "number of inequality constraints");
      }
      w += "." + std::to_string(what);
    }
    c.holds(s, w, 1e-10);
  }
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(250); ++i) {
    run<DynAL>(g);
    run<StaticAL>(g);
  }
  return finish();
}
