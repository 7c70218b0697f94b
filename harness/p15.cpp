// trajectories and knot points against a plain record of what they must hold
#include "gen.hpp"
template <int n_, int m_>
struct Rec {
  std::vector<VectorXd> x, u;
  std::vector<float> t, h;
  int n, m;
};
template <int n_, int m_>
void holds(const Trajectory<n_, m_>& z, const Rec<n_, m_>& r, const std::string& w) {
  int N = r.x.size() - 1;
  check(z.NumSegments() == N, w + " length");
  for (int k = 0; k <= N; ++k) {
    near(z.State(k), r.x[k], w + " state", 0);
    near(z.Control(k), r.u[k], w + " control", 0);
    near(z.GetKnotPoint(k).State(), r.x[k], w + " knot point state", 0);
    near(z.GetTime(k), r.t[k], w + " time", 1e-6);
    near(z.GetStep(k), r.h[k], w + " step", 1e-6);
    check(z.StateDimension(k) == r.n && z.ControlDimension(k) == r.m, w + " dimensions");
  }
}
template <int n_, int m_>
void run(Gen& g) {
  int n = n_ > 0 ? n_ : g.i(1, 5), m = m_ > 0 ? m_ : g.i(1, 4), N = g.coin(0.05) ? g.i(13, 200) : g.i(1, 12);
  typedef Trajectory<n_, m_> T;
  T z(n, m, N);
  Rec<n_, m_> r;
  r.n = n;
  r.m = m;
  for (int k = 0; k <= N; ++k) {
    r.x.push_back(g.vec(n));
    r.u.push_back(g.vec(m));
    r.t.push_back(g.u(-2, 2));
    r.h.push_back(g.u(-1, 1));
    z.State(k) = r.x[k];
    z.Control(k) = r.u[k];
    z.SetTime(k, r.t[k]);
    z.SetStep(k, r.h[k]);
  }
  holds(z, r, "set");
  T c(z);
  holds(c, r, "copy");
  T d(n, m, g.i(1, 9));
  d = z;
  holds(d, r, "assignment");
  T e(std::move(c));
  holds(e, r, "move");
  T f(n, m, g.i(1, 9));
  f = std::move(d);
  holds(f, r, "move assignment");
  {   // iteration in order
    int k = 0;
    for (auto it = z.begin(); it != z.end(); ++it, ++k) near(it->State(), r.x[k], "iteration", 0);
    check(k == N + 1, "iteration length");
  }
  // a single knot point
  KnotPoint<n_, m_> p(VectorXd(r.x[0]), VectorXd(r.u[0]), r.t[0], r.h[0]), q(p);
  VectorXd xu(n + m);
  xu << r.x[0], r.u[0];
  near(p.GetStateControl(), xu, "joint vector", 0);
  near(q.State(), r.x[0], "knot point copy", 0);
  near(q.GetTime(), r.t[0], "knot point time", 0);
  near(q.GetStep(), r.h[0], "knot point step", 0);
  KnotPoint<n_, m_> s(n, m);
  s = p;
  near(s.Control(), r.u[0], "knot point assignment", 0);
  near(s.GetTime(), r.t[0], "knot point time", 0);
  near(s.GetStep(), r.h[0], "knot point step", 0);
  KnotPoint<n_, m_> s2(std::move(s));
  near(s2.State(), r.x[0], "knot point move", 0);
  near(s2.GetStep(), r.h[0], "knot point step", 0);
  // uniform step
  float h = g.u(0.01, 1);
  z.SetUniformStep(h);
  Rec<n_, m_> v = r;
  for (int k = 0; k <= N; ++k) {
    v.h[k] = k < N ? h : 0;
    v.t[k] = float(k) * h;
  }
  holds(z, v, "uniform step");
  check(z.CheckTimeConsistency(1e-4), "uniform times are consistent");
  // consistency
  for (int i = 0; i < 6; ++i) {
    int k = g.i(0, N - 1);
    T w(z);
    double eps = std::pow(10, g.u(-3, -1));
    double off = g.coin() ? g.u(0.1, 0.8) * eps : g.u(1.3, 5) * eps;
    if (g.coin()) off = -off;
    if (g.coin()) w.SetStep(k, h + off);
    else if (g.coin()) {   // shift all later times
      for (int j = k + 1; j <= N; ++j) w.SetTime(j, v.t[j] + off);
    } else {
      k = N;
      w.SetStep(N, 3.0);   // the terminal step belongs to no segment
      off = 0;
    }
    check(w.CheckTimeConsistency(eps) == (std::abs(off) < eps), "consistency verdict");
    check(w.CheckTimeConsistency(eps, false) == (std::abs(off) < eps), "consistency verdict");
  }
  // zeroing
  z.SetZero();
  for (int k = 0; k <= N; ++k) {
    v.x[k].setZero();
    v.u[k].setZero();
  }
  holds(z, v, "zeroed");
  // lists
  std::vector<VectorN<n_>> X;
  std::vector<VectorN<m_>> U;
  std::vector<float> ts;
  Rec<n_, m_> l;
  l.n = n;
  l.m = m;
  float t = g.u(-1, 1);
  for (int k = 0; k <= N; ++k) {
    X.push_back(g.vec(n));
    if (k < N) U.push_back(g.vec(m));
    ts.push_back(t);
    l.x.push_back(X[k]);
    l.u.push_back(k < N ? VectorXd(U[k]) : VectorXd(VectorXd::Zero(m)));
    l.t.push_back(t);
    float dt = g.u(0.05, 1), next = t + dt;
    l.h.push_back(k < N ? next - t : 0);
    t = next;
  }
  T a(X, U, ts);
  holds(a, l, "from lists");
  check(a.CheckTimeConsistency(1e-5), "times from lists are consistent");
}
int main() {
  Gen g(seed());
  for (int i = 0; i < rounds(400); ++i) {
    run<-1, -1>(g);
    run<4, 2>(g);
    run<3, 1>(g);
  }
  return finish();
}
