// rollouts: feasibility, control law, bounds, times
#include "ref.hpp"
template <class C>
void run(Gen& g) {
  C c(g, 0, g.coin() ? 0.1 : 2.0);
  auto& o = c.s->GetOptions();
  auto before = *c.Z;
  c.s->Rollout();
  c.feasible("open-loop rollout");
  for (int k = 0; k <= c.N; ++k) {
    near(c.U(*c.Z, k), c.U(before, k), c.tag + "rollout keeps the controls", 0);
    near(c.Z->GetTime(k), before.GetTime(k), c.tag + "rollout keeps the times", 0);
    near(c.Z->GetStep(k), before.GetStep(k), c.tag + "rollout keeps the steps", 0);
  }
  if (g.coin()) {   // the times may be changed after the trajectory was handed over
    float t = g.u(-3, 3);
    for (int k = 0; k <= c.N; ++k) {
      float h = k < c.N ? float(g.u(0.05, 0.4)) : 0.0f;
      c.Z->SetTime(k, t);
      c.Z->SetStep(k, h);
      t += h;
    }
    c.s->Rollout();
  }
  c.s->SolveSetup();
  c.s->UpdateExpansions();
  c.s->BackwardPass();
  for (int k = 0; k < c.N; ++k) {
    if (g.coin()) c.s->GetKnotPointFunction(k).GetFeedbackGain() = g.mat(c.m, c.n);
    if (g.coin()) c.s->GetKnotPointFunction(k).GetFeedforwardGain() = g.vec(c.m);
  }
  before = *c.Z;
  for (int q = 0; q < 4; ++q) {
    o.check_forwardpass_bounds = g.coin(0.8);
    o.state_max = g.coin() ? g.u(0.5, 6) : 1e8;
    o.control_max = g.coin() ? g.u(0.5, 4) : 1e8;
    double al = g.coin() ? 1.0 : g.u(0, 1.5);
    auto t = c.trial(al);
    bool r = c.s->RolloutClosedLoop(al);
    if (t.margin > 1e-9) {
      check(r == t.ok, c.tag + "rollout verdict", r ? "accepted" : "rejected");
      check(c.s->GetStatus() == t.why, c.tag + "rollout status");
    }
    c.same(*c.Z, before, "trial rollout leaves the user trajectory");
  }
  // accepted trajectories
  o.check_forwardpass_bounds = true;
  o.state_max = o.control_max = 1e8;
  c.s->SolveSetup();
  c.s->UpdateExpansions();
  c.s->BackwardPass();
  c.s->ForwardPass();
  c.feasible("after a line search");
  for (int k = 0; k <= c.N; ++k) near(c.Z->GetTime(k), before.GetTime(k), c.tag + "times kept", 0);
  for (int k = 0; k < c.N; ++k) near(c.Z->GetStep(k), before.GetStep(k), c.tag + "steps kept", 0);
  if (g.coin()) {
    o.max_iterations_inner = g.i(1, 6);
    c.s->Solve();
    c.feasible("after a solve");
  }
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(250); ++i) {
    run<DynCase>(g);
    run<StaticCase>(g);
    // a trajectory made by the solver from a linked initial state
    float h = g.u(0.01, 0.5);
    StaticCase c(g);
    auto z = c.s->MakeTrajectory(h);
    for (int k = 0; k <= c.N; ++k) {
      near(z->GetTime(k), k * h, "time of a made trajectory", 1e-5);
      near(z->GetStep(k), k < c.N ? h : 0.0f, "step of a made trajectory", 1e-6);
    }
    for (int k = 0; k < c.N; ++k) z->Control(k) = g.vec(c.m);
    c.s->Rollout();
    c.Z = z;
    c.feasible("rollout of a made trajectory");
    c.s->Solve();
    c.feasible("solve of a made trajectory");
  }
  return finish();
}
