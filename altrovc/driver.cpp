// Driver translation unit: pulls in the real sources of /repo and instantiates the templates that are verified.
#include "altro/augmented_lagrangian/al_cost.hpp"
#include "altro/augmented_lagrangian/al_problem.hpp"
#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "altro/common/trajectory.hpp"
#include "altro/common/threadsafe_queue.hpp"
#include "altro/constraints/constraint_values.hpp"
#include "altro/problem/discretized_model.hpp"
#include "altro/utils/derivative_checker.hpp"
// the library's own .cpp files
#include "altro/common/functionbase.cpp"
#include "altro/common/log_entry.cpp"
#include "altro/common/solver_logger.cpp"
#include "altro/common/solver_options.cpp"
#include "altro/common/solver_stats.cpp"
#include "altro/common/threadpool.cpp"
#include "altro/constraints/constraint.cpp"
#include "altro/ilqr/ilqr.cpp"
#include "altro/problem/dynamics.cpp"
#include "altro/problem/integration.cpp"
#include "altro/problem/problem.cpp"
#include "altro/utils/assert.cpp"

namespace altro {
constexpr int D = Eigen::Dynamic;
// concrete user-side classes (only used to force instantiation)
class VModel : public problem::ContinuousDynamics {
 public:
  int StateDimension() const override { return 1; }
  int ControlDimension() const override { return 1; }
  bool HasHessian() const override { return false; }
  using problem::ContinuousDynamics::Evaluate;
  void Evaluate(const VectorXdRef&, const VectorXdRef&, float, Eigen::Ref<VectorXd>) override {}
  void Jacobian(const VectorXdRef&, const VectorXdRef&, float, Eigen::Ref<MatrixXd>) override {}
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
};

// an arbitrary function: declared, never defined
struct VFun {
  VectorXd operator()(const VectorXd& x) const { return x; }
};
struct VScalar {
  double operator()(const VectorXd& x) const { return x(0); }
};

template <class C>
class VCon : public constraints::Constraint<C> {
 public:
  using constraints::Constraint<C>::Evaluate;
  using constraints::Constraint<C>::Jacobian;
  int OutputDimension() const override { return 1; }
  void Evaluate(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd>) override {}
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
};
using VEq = VCon<constraints::Equality>;
using VIneq = VCon<constraints::Inequality>;

template class KnotPoint<D, D, double>;
template class Trajectory<D, D, double>;
template class ilqr::iLQR<D, D>;
template class augmented_lagrangian::AugmentedLagrangianiLQR<D, D>;
template class ilqr::iLQR<4, 2>;
template class StateControlSized<D, D>;
template class Trajectory<4, 2, double>;
template class KnotPoint<4, 2, double>;
template class ThreadSafeQueue<int>;
template class ThreadSafeQueue<std::packaged_task<void()>>;

template class ilqr::KnotPointFunctions<D, D>;
template class ilqr::KnotPointFunctions<4, 2>;
template class ilqr::CostExpansion<4, 2>;
template class ilqr::DynamicsExpansion<4, 2>;
template class problem::RungeKutta4<4, 2>;
template class problem::ExplicitIntegrator<4, 2>;
template class ilqr::CostExpansion<D, D>;
template class ilqr::DynamicsExpansion<D, D>;
template class constraints::ConstraintValues<D, D, constraints::Equality>;
template class constraints::ConstraintValues<D, D, constraints::NegativeOrthant>;


template class augmented_lagrangian::ALCost<D, D>;
template class problem::RungeKutta4<D, D>;
template class problem::ExplicitIntegrator<D, D>;
template class problem::DiscretizedModel<VModel, problem::RungeKutta4<D, D>>;

inline void instantiate_all(const problem::Problem& p, problem::Problem& pm, std::shared_ptr<Trajectory<D, D>> Z,
                            ilqr::iLQR<4, 2>& s42, augmented_lagrangian::AugmentedLagrangianiLQR<4, 2>& a42,
                            augmented_lagrangian::AugmentedLagrangianiLQR<D, D>& a) {
  a.MaxViolation(*Z);
  pm.SetCostFunction(std::vector<std::shared_ptr<problem::CostFunction>>(), 0);
  pm.SetDynamics(std::vector<std::shared_ptr<problem::DiscreteDynamics>>(), 0);
  // default arguments are instantiated where they are used
  pm.SetCostFunction(std::vector<std::shared_ptr<problem::CostFunction>>());
  pm.SetDynamics(std::vector<std::shared_ptr<problem::DiscreteDynamics>>());
  KnotPoint<D, D> zd{VectorXd(1), VectorXd(1)};
  KnotPoint<4, 2> zs{Eigen::Matrix<double, 4, 1>(), Eigen::Matrix<double, 2, 1>()};
  ilqr::CostExpansion<D, D> ced(1, 1);
  ilqr::CostExpansion<4, 2> ces(4, 2);
  ilqr::DynamicsExpansion<D, D> ded(1, 1);
  ilqr::DynamicsExpansion<4, 2> des(4, 2);
  ced.CalcExpansion(std::shared_ptr<problem::CostFunction>(), zd);
  ces.CalcExpansion(std::shared_ptr<problem::CostFunction>(), zs);
  ded.CalcExpansion(std::shared_ptr<problem::DiscreteDynamics>(), zd);
  des.CalcExpansion(std::shared_ptr<problem::DiscreteDynamics>(), zs);
  pm.SetConstraint(std::shared_ptr<constraints::Constraint<constraints::Equality>>(), 0);
  pm.SetConstraint(std::shared_ptr<VEq>(), 0);
  pm.SetConstraint(std::shared_ptr<VIneq>(), 0);
  (void)s42; (void)a42;
  VectorXd fx(1);
  utils::FiniteDiffJacobian(VFun(), VectorXdRef(fx));
  utils::FiniteDiffGradient<-1>(VScalar(), fx);
  utils::FiniteDiffHessian<-1>(VScalar(), fx);
  augmented_lagrangian::BuildAugLagProblem<D, D>(p, (std::vector<std::shared_ptr<augmented_lagrangian::ALCost<D, D>>>*)nullptr);
  TrajectoryXXd t(1, 1, 1);
}
}  // namespace altro
