// division of the knot points among tasks: every knot point exactly once, for the default and for given divisions
#include <atomic>
#include <chrono>
#include <thread>
#include "gen.hpp"
struct CDyn : Dyn {
  using Dyn::Dyn;
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<MatrixXd> j) override {
    ++jac;
    Dyn::Jacobian(x, u, t, h, j);
  }
  std::atomic<int> jac{0};
};
struct CQuad : Quad {
  using Quad::Quad;
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    ++grad;
    Quad::Gradient(x, u, dx, du);
  }
  std::atomic<int> grad{0};
};
static bool division(const std::vector<int>& w, int N) {
  if (w.size() < 2 || w.front() != 0 || w.back() != N + 1) return false;
  for (size_t i = 0; i + 1 < w.size(); ++i)
    if (w[i] > w[i + 1]) return false;
  return true;
}
static std::string str(const std::vector<int>& w) {
  std::string s;
  for (int a : w) s += std::to_string(a) + " ";
  return s;
}
template <int n_, int m_>
struct P {
  int n, m, N;
  std::vector<std::shared_ptr<CDyn>> dyn;
  std::vector<std::shared_ptr<CQuad>> cost;
  std::unique_ptr<ilqr::iLQR<n_, m_>> s;
  std::shared_ptr<Trajectory<n_, m_>> Z;
  P(Gen& g, int horizon) : n(n_ > 0 ? n_ : 2), m(m_ > 0 ? m_ : 1), N(horizon) {
    problem::Problem prob(N);
    for (int k = 0; k <= N; ++k) {
      cost.push_back(std::make_shared<CQuad>(g, n, m));
      prob.SetCostFunction(cost[k], k);
      if (k < N) {
        dyn.push_back(std::make_shared<CDyn>(g, n, m));
        prob.SetDynamics(dyn[k], k);
      }
    }
    prob.SetInitialState(g.vec(n));
    s = std::make_unique<ilqr::iLQR<n_, m_>>(N);
    s->InitializeFromProblem(prob);
    Z = std::make_shared<Trajectory<n_, m_>>(n, m, N);
    for (int k = 0; k <= N; ++k) {
      Z->State(k) = g.vec(n);
      Z->Control(k) = k < N ? g.vec(m) : VectorXd(VectorXd::Zero(m));
    }
    Z->SetUniformStep(0.1f);
    s->SetTrajectory(Z);
  }
  void update(const std::string& what) {
    for (auto& d : dyn) d->jac = 0;
    for (auto& c : cost) c->grad = 0;
    for (int k = 0; k <= N; ++k) {   // poison what the previous update left
      s->GetKnotPointFunction(k).GetCostExpansion().dx().setConstant(7);
    }
    s->GetCosts().setConstant(-3);
    s->SolveSetup();
    for (auto& d : dyn) d->jac = 0;
    for (auto& c : cost) c->grad = 0;
    for (int k = 0; k <= N; ++k) s->GetKnotPointFunction(k).GetCostExpansion().dx().setConstant(7);
    s->UpdateExpansions();
    for (int k = 0; k <= N; ++k) {
      std::string at = what + " knot point " + std::to_string(k) + " of " + std::to_string(N);
      check(cost[k]->grad == 1, at + " cost evaluated once", std::to_string(cost[k]->grad));
      near(s->GetKnotPointFunction(k).GetCostExpansion().dx(), cost[k]->Dx(Z->State(k), Z->Control(k)), at + " cost gradient");
      near(s->GetCosts()(k), cost[k]->F(Z->State(k), Z->Control(k)), at + " cost");
      if (k < N) {
        check(dyn[k]->jac == 1, at + " dynamics evaluated once", std::to_string(dyn[k]->jac));
        near(s->GetKnotPointFunction(k).GetDynamicsExpansion().GetJacobian(),
             dyn[k]->J(Z->State(k), Z->Control(k), Z->GetTime(k), Z->GetStep(k)), at + " dynamics");
      }
    }
  }
};
static std::vector<int> pick(Gen& g, int N) {
  std::vector<int> w{0};
  int parts = g.i(1, 6);
  double q = g.u(0.1, 0.9);
  for (int k = 1; k <= N && parts > 1; ++k)
    if (g.coin(q)) {
      w.push_back(k);
      --parts;
    }
  w.push_back(N + 1);
  return w;
}
template <int n_, int m_>
void defaults(Gen& g, int N, int T, int K, ilqr::iLQR<n_, m_>& s) {
  s.GetOptions().nthreads = T;
  s.GetOptions().tasks_per_thread = K;
  auto& w = s.GetTaskAssignment();
  std::string at = "default division N=" + std::to_string(N) + " threads=" + std::to_string(T) + " tasks=" + std::to_string(K);
  check(static_cast<int>(w.size()) == T * K + 1 && s.NumTasks() == T * K, at + " number of blocks");
  check(division(w, N), at, ::str(w));
  auto v = w;
  check(s.GetTaskAssignment() == v, at + " is stable");
}
template <int n_, int m_>
void history(Gen& g) {
  P<n_, m_> p(g, g.i(1, 12));
  auto& o = p.s->GetOptions();
  bool custom = false;
  std::vector<int> w;
  for (int step = 0; step < 5; ++step) {
    int what = g.i(0, 3);
    if (what == 0) o.nthreads = g.i(1, 4);
    if (what == 1) o.tasks_per_thread = g.i(1, 4);
    if (what == 2) {
      w = pick(g, p.N);
      p.s->SetTaskAssignment(w);
      custom = true;
    }
    if (custom) check(p.s->GetTaskAssignment() == w, "given division is kept", ::str(p.s->GetTaskAssignment()));
    check(division(p.s->GetTaskAssignment(), p.N), "division in use", ::str(p.s->GetTaskAssignment()));
    p.update("step " + std::to_string(step));
  }
}
template <int n_, int m_>
void rejects(Gen& g) {
  int N = g.i(2, 10);
  P<n_, m_> p(g, N);
  auto w = pick(g, N);
  auto bad = w;
  switch (g.i(0, 7)) {
    case 0: bad.front() = 1; break;
    case 1: bad.back() = N; break;
    case 2: bad = {0}; break;
    case 3: bad = {0, 2, 1, N + 1}; break;
    case 4: bad = {0, 0, N + 1}; break;
    case 5: bad = {0, N + 1, N + 1}; break;
    case 6: bad = {0, -1, N + 1}; break;
    default: bad = {0, 1, 1, N + 1};
  }
  check(refuses([&] { p.s->SetTaskAssignment(bad); }), "not a division: rejected", ::str(bad));
  check(!refuses([&] { p.s->SetTaskAssignment(w); }), "a division: accepted", ::str(w));
}
int main() {
  Gen g(seed());
  for (int N = 1; N <= (thorough() ? 200 : 40); ++N) {
    P<-1, -1> p(g, N);
    P<2, 1> q(g, N);
    for (int T = 1; T <= 16; ++T)
      for (int K = 1; K <= (thorough() ? 8 : 3); ++K) {
        defaults(g, N, T, K, *p.s);
        defaults(g, N, T, K, *q.s);
      }
  }
  for (int i = 0; i < rounds(20); ++i) {
    history<-1, -1>(g);
    history<2, 1>(g);
    rejects<-1, -1>(g);
    rejects<2, 1>(g);
  }
  return finish();
}
