// A solver for a random problem, with an independently written account of what every phase has to do.
#pragma once
#include "gen.hpp"

template <int n_, int m_>
struct Case {
  Gen& g;
  int n, m, N;
  std::vector<std::shared_ptr<Dyn>> dyn;
  std::vector<std::shared_ptr<Quad>> cost;
  std::unique_ptr<ilqr::iLQR<n_, m_>> s;
  std::shared_ptr<Trajectory<n_, m_>> Z;
  VectorXd x0;
  std::string tag;

  // hard: 0 convex, 1 indefinite control Hessians at some knot points, 2 hopeless
  Case(Gen& gen, int hard = 0, double wave = 0.1) : g(gen) {
    n = n_ > 0 ? n_ : g.i(1, 4);
    m = m_ > 0 ? m_ : g.i(1, 3);
    N = g.i(1, 6);
    problem::Problem prob(N);
    for (int k = 0; k <= N; ++k) {
      auto c = std::make_shared<Quad>(g, n, m, true, wave);
      if (hard == 1 && g.coin(0.5) && k < N) c->R = g.spd(m) - g.u(0.5, 3) * MatrixXd::Identity(m, m);
      if (hard == 2 && k == g.i(0, N - 1)) c->R = -1e6 * MatrixXd::Identity(m, m);
      cost.push_back(c);
      prob.SetCostFunction(c, k);
      if (k < N) {
        dyn.push_back(std::make_shared<Dyn>(g, n, m));
        prob.SetDynamics(dyn.back(), k);
      }
    }
    if (hard == 2) cost[g.i(0, N - 1)]->R = -1e6 * MatrixXd::Identity(m, m);
    x0 = g.vec(n);
    prob.SetInitialState(x0);
    s = std::make_unique<ilqr::iLQR<n_, m_>>(N);
    s->InitializeFromProblem(prob);
    Z = std::make_shared<Trajectory<n_, m_>>(n, m, N);
    float t = g.u(-1, 1);
    for (int k = 0; k <= N; ++k) {
      Z->State(k) = g.vec(n);
      Z->Control(k) = k < N ? g.vec(m) : VectorXd(VectorXd::Zero(m));
      float h = k < N ? float(g.u(0.05, 0.3)) : 0.0f;
      Z->SetTime(k, t);
      Z->SetStep(k, h);
      t += h;
    }
    s->SetTrajectory(Z);
    std::ostringstream o;
    o << "[n=" << n << " m=" << m << " N=" << N << " hard=" << hard << "] ";
    tag = o.str();
  }
  VectorXd X(const Trajectory<n_, m_>& z, int k) { return z.State(k); }
  VectorXd U(const Trajectory<n_, m_>& z, int k) { return z.Control(k); }
  double Cost(const Trajectory<n_, m_>& z) {
    double J = 0;
    for (int k = 0; k <= N; ++k) J += cost[k]->F(X(z, k), U(z, k));
    return J;
  }
  VectorXd Next(const Trajectory<n_, m_>& z, int k, const VectorXd& x, const VectorXd& u) {
    return dyn[k]->F(x, u, z.GetTime(k), z.GetStep(k));
  }
  bool same(const Trajectory<n_, m_>& a, const Trajectory<n_, m_>& b, const std::string& what, double tol = 0) {
    bool ok = true;
    for (int k = 0; k <= N && ok; ++k) {
      ok = ok && near(X(a, k), X(b, k), tag + what + " state " + std::to_string(k), tol);
      ok = ok && near(U(a, k), U(b, k), tag + what + " control " + std::to_string(k), tol);
      ok = ok && near(a.GetTime(k), b.GetTime(k), tag + what + " time", tol);
      ok = ok && near(a.GetStep(k), b.GetStep(k), tag + what + " step", tol);
    }
    return ok;
  }
  bool feasible(const std::string& what) {
    bool ok = near(X(*Z, 0), x0, tag + what + ": starts at the initial state", 0);
    for (int k = 0; k < N; ++k)
      ok = near(X(*Z, k + 1), Next(*Z, k, X(*Z, k), U(*Z, k)), tag + what + ": dynamics at " + std::to_string(k), 1e-12) && ok;
    return ok;
  }

  // ---- expansions
  void expansions() {
    s->UpdateExpansions();
    for (int k = 0; k <= N; ++k) {
      auto& f = s->GetKnotPointFunction(k);
      auto& e = f.GetCostExpansion();
      VectorXd x = X(*Z, k), u = U(*Z, k);
      std::string at = tag + "expansion at " + std::to_string(k) + " ";
      near(e.dx(), cost[k]->Dx(x, u), at + "dx");
      near(e.du(), cost[k]->Du(x, u), at + "du");
      near(e.dxdx(), cost[k]->Dxx(x, u), at + "dxdx");
      near(e.dxdu(), cost[k]->Dxu(x, u), at + "dxdu");
      near(e.dudu(), cost[k]->Duu(x, u), at + "dudu");
      near(s->GetCosts()(k), cost[k]->F(x, u), at + "cost");
      if (k < N) near(f.GetDynamicsExpansion().GetJacobian(), dyn[k]->J(x, u, Z->GetTime(k), Z->GetStep(k)), at + "dynamics");
    }
    near(s->Cost(), Cost(*Z), tag + "total cost");
  }

  // ---- one sweep with regularisation rho; false if a factorisation fails.  Fills nothing, only counts.
  bool sweep(double rho, double* margin = nullptr) {
    MatrixXd S = cost[N]->Dxx(X(*Z, N), U(*Z, N));
    VectorXd p = cost[N]->Dx(X(*Z, N), U(*Z, N));
    for (int k = N - 1; k >= 0; --k) {
      VectorXd x = X(*Z, k), u = U(*Z, k);
      MatrixXd J = dyn[k]->J(x, u, Z->GetTime(k), Z->GetStep(k));
      MatrixXd A = J.leftCols(n), B = J.rightCols(m);
      MatrixXd Qxx = cost[k]->Dxx(x, u) + A.transpose() * S * A, Qxu = cost[k]->Dxu(x, u) + A.transpose() * S * B,
               Quu = cost[k]->Duu(x, u) + B.transpose() * S * B;
      VectorXd qx = cost[k]->Dx(x, u) + A.transpose() * p, qu = cost[k]->Du(x, u) + B.transpose() * p;
      MatrixXd Qr = Quu + rho * MatrixXd::Identity(m, m);
      double ev = Eigen::SelfAdjointEigenSolver<MatrixXd>(0.5 * (Qr + Qr.transpose())).eigenvalues()(0);
      if (margin) *margin = std::min(*margin, std::abs(ev) / (1 + Qr.cwiseAbs().maxCoeff()));
      if (ev <= 0) return false;
      Eigen::LDLT<MatrixXd> c(Qr);
      MatrixXd K = -c.solve(Qxu.transpose());
      VectorXd d = -c.solve(qu);
      p = qx + K.transpose() * Quu * d + K.transpose() * qu + Qxu * d;
      S = Qxx + K.transpose() * Quu * K + K.transpose() * Qxu.transpose() + Qxu * K;
    }
    return true;
  }

  // ---- the policy the solver holds is one complete sweep with one regularisation
  void policy(double rho, const std::string& what) {
    auto& t = s->GetKnotPointFunction(N);
    near(t.GetCostToGoHessian(), t.GetCostExpansion().dxdx(), tag + what + " terminal Hessian");
    near(t.GetCostToGoGradient(), t.GetCostExpansion().dx(), tag + what + " terminal gradient");
    for (int k = N - 1; k >= 0; --k) {
      auto& f = s->GetKnotPointFunction(k);
      auto& nx = s->GetKnotPointFunction(k + 1);
      std::string at = tag + what + " at " + std::to_string(k) + " ";
      MatrixXd A = f.GetDynamicsExpansion().GetA(), B = f.GetDynamicsExpansion().GetB(), S = nx.GetCostToGoHessian();
      VectorXd p = nx.GetCostToGoGradient();
      auto& e = f.GetCostExpansion();
      auto& Q = f.GetActionValueExpansion();
      MatrixXd Qxx = e.dxdx() + A.transpose() * S * A, Qxu = e.dxdu() + A.transpose() * S * B,
               Quu = e.dudu() + B.transpose() * S * B;
      VectorXd qx = e.dx() + A.transpose() * p, qu = e.du() + B.transpose() * p;
      near(Q.dxdx(), Qxx, at + "Qxx");
      near(Q.dxdu(), Qxu, at + "Qxu");
      near(Q.dudu(), Quu, at + "Quu");
      near(Q.dx(), qx, at + "Qx");
      near(Q.du(), qu, at + "Qu");
      MatrixXd K = f.GetFeedbackGain();
      VectorXd d = f.GetFeedforwardGain();
      MatrixXd Qr = Quu + rho * MatrixXd::Identity(m, m);
      double sc = 1 + Qr.cwiseAbs().maxCoeff() * (1 + K.cwiseAbs().maxCoeff() + d.cwiseAbs().maxCoeff());
      near(MatrixXd(Qr * K) / sc, MatrixXd(-Qxu.transpose()) / sc, at + "feedback gain", 1e-6);
      near(MatrixXd(Qr * d) / sc, MatrixXd(-qu) / sc, at + "feedforward gain", 1e-6);
      VectorXd sx = qx + K.transpose() * Quu * d + K.transpose() * qu + Qxu * d;
      MatrixXd Sx = Qxx + K.transpose() * Quu * K + K.transpose() * Qxu.transpose() + Qxu * K;
      near(f.GetCostToGoGradient(), sx, at + "cost-to-go gradient", 1e-6);
      near(f.GetCostToGoHessian(), Sx, at + "cost-to-go Hessian", 1e-6);
      near(f.GetCostToGoDelta(0.5), 0.5 * d.dot(qu) + 0.25 * 0.5 * d.dot(Quu * d), at + "expected change", 1e-6);
    }
  }
  double rho_used() {
    auto& f = s->GetKnotPointFunction(0);
    return f.GetActionValueExpansionRegularized().dudu()(0, 0) - f.GetActionValueExpansion().dudu()(0, 0);
  }

  // ---- forward pass
  struct Trial {
    bool ok;
    SolverStatus why;
    std::vector<VectorXd> x, u;
    double J, margin;
  };
  Trial trial(double alpha) {
    Trial r;
    auto& o = s->GetOptions();
    r.ok = true;
    r.why = SolverStatus::kUnsolved;
    r.margin = 1e300;
    r.x.push_back(x0);
    for (int k = 0; k < N; ++k) {
      auto& f = s->GetKnotPointFunction(k);
      VectorXd u = U(*Z, k) + f.GetFeedbackGain() * (r.x[k] - X(*Z, k)) + alpha * f.GetFeedforwardGain();
      r.u.push_back(u);
      r.x.push_back(Next(*Z, k, r.x[k], u));
      if (o.check_forwardpass_bounds && r.ok) {
        double a = r.x[k + 1].norm(), b = u.norm();
        r.margin = std::min(r.margin, std::abs(a - o.state_max) / (1 + o.state_max));
        if (a <= o.state_max) r.margin = std::min(r.margin, std::abs(b - o.control_max) / (1 + o.control_max));
        if (a > o.state_max) {
          r.ok = false;
          r.why = SolverStatus::kStateLimit;
        } else if (b > o.control_max) {
          r.ok = false;
          r.why = SolverStatus::kControlLimit;
        }
      }
    }
    r.u.push_back(VectorXd::Zero(m));
    r.J = 0;

    for (int k = 0; k <= N; ++k) r.J += cost[k]->F(r.x[k], r.u[k]);
    return r;
  }
};

typedef Case<Eigen::Dynamic, Eigen::Dynamic> DynCase;
typedef Case<4, 2> StaticCase;
