// reported violations and penalties are the maxima over all constraints
#include <map>
#include "al.hpp"
template <class C>
void report(C& c, const typename C::Solver& s, const std::string& w) {
  for (int sorted = 0; sorted < 2; ++sorted) {
    auto l = s.GetConstraintInfo(sorted);
    std::map<std::string, constraints::ConstraintInfo> by;
    size_t total = 0;
    for (auto& i : l) check(by.emplace(i.label, i).second, c.tag + w + " listed once", i.label);
    auto look = [&](auto& v, auto* cone, int k) {
      for (auto& r : v) {
        ++total;
        auto f = by.find(r.con->GetLabel());
        if (!check(f != by.end(), c.tag + w + " constraint is listed", r.con->GetLabel())) continue;
        check(f->second.index == k, c.tag + w + " index of " + f->first, std::to_string(f->second.index));
        check(f->second.type == r.con->GetConstraintType(), c.tag + w + " type of " + f->first);
        near(f->second.violation, off(cone, r.c), c.tag + w + " violation of " + f->first);
      }
    };
    for (int k = 0; k <= c.N; ++k) {
      look(c.eq[k], (Eq*)0, k);
      look(c.in[k], (In*)0, k);
    }
    check(l.size() == total, c.tag + w + " number of constraints listed");
    for (size_t i = 0; sorted && i + 1 < l.size(); ++i)
      check(l[i].violation.cwiseAbs().maxCoeff() >= l[i + 1].violation.cwiseAbs().maxCoeff(), c.tag + w + " sorted");
  }
}
template <class C>
void run(Gen& g) {
  C c(g);
  typename C::Solver a(*c.prob), *s = &a;
  s->SetTrajectory(c.Z);
  auto rest = [&](const std::string& w) {
    near(s->GetMaxViolation(), c.violation(), c.tag + w + " violation");
    double one = 0, two = 0;
    for (int k = 0; k <= c.N; ++k) {
      near(s->GetALCost(k)->MaxViolation(), c.violation(k), c.tag + w + " violation at " + std::to_string(k));
      near(s->GetALCost(k)->MaxPenalty(), c.penalty(k), c.tag + w + " penalty at " + std::to_string(k));
      for (auto& r : c.eq[k]) one += r.c.cwiseAbs().sum(), two += r.c.squaredNorm();
      for (auto& r : c.in[k]) one += off((In*)0, r.c).sum(), two += off((In*)0, r.c).squaredNorm();
    }
    near(s->template GetMaxViolation<1>(), one, c.tag + w + " violation, 1-norm");
    near(s->template GetMaxViolation<2>(), std::sqrt(two), c.tag + w + " violation, 2-norm");
    near(s->GetMaxPenalty(), c.penalty(), c.tag + w + " penalty");
    report(c, *s, w);
  };
  rest("fresh");
  c.shuffle(*s, g.coin());
  c.evaluate(*c.Z);
  near(s->MaxViolation(), c.violation(), c.tag + "violation of the solver's trajectory");
  rest("own trajectory");
  auto z = c.traj();
  c.evaluate(*z);
  near(s->MaxViolation(*z), c.violation(), c.tag + "violation of a given trajectory");
  rest("given trajectory");
  for (int k = 0; k <= c.N; ++k) {   // feasible inequalities do not count
    for (auto& r : c.eq[k]) r.con->d = r.con->F(z->State(k), z->Control(k)) + r.con->d;
    for (auto& r : c.in[k]) r.con->d = r.con->F(z->State(k), z->Control(k)) + r.con->d + VectorXd::Constant(r.rho.size(), g.u(0.1, 2));
  }
  c.evaluate(*z);
  near(s->MaxViolation(*z), c.violation(), c.tag + "violation of a feasible trajectory", 1e-10);
  // a moved solver reports its own
  typename C::Solver b(std::move(a));
  s = &b;
  c.evaluate(*c.Z);
  s->MaxViolation(*c.Z);
  rest("moved");
  s->GetStats().NewIteration();
  s->GetiLQRSolver().UpdateConvergenceStatistics();
  near(s->GetStats().violations.back(), c.violation(), c.tag + "violation logged by the inner solver after a move");
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(200); ++i) {
    run<DynAL>(g);
    run<StaticAL>(g);
  }
  return finish();
}
