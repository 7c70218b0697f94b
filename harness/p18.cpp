// solver history against a plain record: one aligned entry per iteration
#include <map>
#include "gen.hpp"
typedef std::vector<double> Vec;
static const char* kNames[] = {"cost", "viol", "dJ", "grad", "alpha", "reg", "z", "pen"};
struct Model {
  std::map<std::string, Vec> h;
  int len = 0;
  Model() {
    for (auto n : kNames) h[n];
  }
  void next() {
    ++len;
    for (auto& kv : h) kv.second.push_back(kv.second.empty() ? 0.0 : kv.second.back());
  }
  void log(const std::string& n, double v) {
    if (!len) next();
    if (h.count(n)) h[n].back() = v;
  }
  void reset() { *this = Model(); }
};
static Vec& get(SolverStats& s, const std::string& n) {
  if (n == "cost") return s.cost;
  if (n == "viol") return s.violations;
  if (n == "dJ") return s.cost_decrease;
  if (n == "grad") return s.gradient;
  if (n == "alpha") return s.alpha;
  if (n == "reg") return s.regularization;
  if (n == "z") return s.improvement_ratio;
  return s.max_penalty;
}
static void same(SolverStats& s, Model& m, const std::string& w) {
  for (auto n : kNames) {
    auto& v = get(s, n);
    check(v == m.h[n], w + " history of " + n, "length " + std::to_string(v.size()) + " expected " + std::to_string(m.h[n].size()));
  }
}
static void run(Gen& g) {
  auto s = std::make_unique<SolverStats>();
  Model m;
  int c0 = 0, c1 = 0, c2 = 0;
  double ic = 0;
  same(*s, m, "new");
  for (int i = 0; i < 40; ++i) {
    int op = g.i(0, 19);
    std::string w = "step " + std::to_string(i) + " op " + std::to_string(op);
    if (op <= 8) {
      std::string n = kNames[g.i(0, 7)];
      double v = g.u(-5, 5);
      s->Log(n, v);
      m.log(n, v);
    } else if (op == 9) {
      std::string n = g.coin() ? "iters" : "iter_al";
      s->Log(n, g.i(0, 9));
      m.log(n, 0);
    } else if (op == 10) {
      s->Log("no such quantity", g.u());
      m.log("no such quantity", 0);
    } else if (op == 11) {
      int v = g.i(-4, 9);
      s->Log("cost", v);
      m.log("cost", v);
    } else if (op <= 15) {
      s->NewIteration();
      m.next();
    } else if (op == 16) {
      s->Reset();
      m.reset();
      c0 = c1 = c2 = 0;
      ic = 0;
    } else if (op == 17) {
      s->iterations_inner = c0 = g.i(0, 5);
      s->iterations_outer = c1 = g.i(0, 5);
      s->iterations_total = c2 = g.i(0, 5);
      s->initial_cost = ic = g.u();
    } else if (op == 18) {
      s->SetCapacity(g.i(0, 50));
    } else if (g.coin()) {
      auto t = std::make_unique<SolverStats>(*s);
      if (g.coin()) s->NewIteration();
      s = std::move(t);
    } else {
      auto t = std::make_unique<SolverStats>(std::move(*s));
      s = std::move(t);
    }
    same(*s, m, w);
    check(s->iterations_inner == c0 && s->iterations_outer == c1 && s->iterations_total == c2, w + " counters");
    near(s->initial_cost, ic, w + " initial cost", 0);
  }
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(300); ++i) run(g);
  return finish();
}
