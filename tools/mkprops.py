import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
K="altro/ilqr/knot_point_function_type.hpp"; I="altro/ilqr/ilqr.hpp"; A="altro/augmented_lagrangian/al_cost.hpp"; S="altro/augmented_lagrangian/al_solver.hpp"
V="altro/constraints/constraint_values.hpp"; C="altro/constraints/constraint.hpp"
p("P01","Each backward step is the exact regularised LQR step",
 "For any cost expansion, dynamics Jacobian [A B], cost-to-go (S,s) and regularisation rho, the action-value expansion is the cost expansion plus A'SA, A'SB, B'SB, A's, B's; the gains (when the factorisation succeeds) satisfy (Quu + rho I)K = -Qux and (Quu + rho I)d = -Qu, with regularisation touching nothing but the control block; and the new cost-to-go is the exact value of the unregularised action-value quadratic under u = K x + d, including its first- and second-order expected-change terms. When the factorisation fails the stored gains are left as they were, and evaluating the expected change at a step length a gives a*d1 + a^2*d2.",
 ["inputs"],"all state/control dimensions, all matrices and vectors, all regularisation values",
 "The tests compare a few random 4x2 and 2x2 instances against the same formulas; an error visible only for asymmetric cost-to-go, nonzero cross terms or nonzero regularisation, or in other dimensions, passes.",
 [K,"altro/ilqr/cost_expansion.hpp","altro/ilqr/dynamics_expansion.hpp"],
 [("action-value expansion",K+": KnotPointFunctions::CalcActionValueExpansion"),("regularisation",K+": RegularizeActionValue"),("gains",K+": CalcGains"),("cost-to-go",K+": CalcCostToGo, CalcTerminalCostToGo, AddCostToGo, GetCostToGoDelta"),("expansion storage","altro/ilqr/cost_expansion.hpp: CostExpansion::operator=; altro/ilqr/dynamics_expansion.hpp: GetA, GetB")],
 ["GetActionValueExpansion","GetFeedbackGain","GetFeedforwardGain","GetCostToGoHessian","GetCostToGoGradient","GetCostToGoDelta"])
p("P02","The backward pass is one complete Riccati sweep per accepted policy",
 "After a backward pass that does not report failure, the cost-to-go at the last knot point is the terminal cost expansion, at every earlier knot point the action-value, gains and cost-to-go are those of the LQR step applied to the cost-to-go of the next knot point with one common regularisation value, and the expected decrease is the sum over all knot points of exactly that sweep. Whenever a factorisation fails the sweep restarts from the terminal expansion with increased regularisation; once the configured number of failures has left the regularisation at its maximum, the pass ends with the regularisation-failed status.",
 ["inputs","configurations"],"all horizon lengths, all expansions, all patterns of factorisation failure, all regularisation options",
 "No test makes a factorisation fail mid-sweep (the source has a TODO asking for one), so restart, the reset of accumulators and the failure exit are never exercised; sweeps are sampled on two models.",
 [I,K],[("sweep and restart",I+": iLQR::BackwardPass"),("local step",K)],["GetKnotPointFunction(k) after BackwardPass","GetStatus","GetRegularization"],
 [("deltaV_","expected decrease terms",I),("rho_","regularisation",I)])
p("P03","Regularisation stays within its bounds and moves in the right direction",
 "At the start of a solve the regularisation equals its configured initial value; afterwards, for any positive configured factor and any min <= max, every increase or decrease leaves it inside [min, max]. An increase never lowers it unless it is already capped at the maximum, its growth factor is at least the configured increase factor, and a decrease with factor > 1 never raises it except up to the minimum; every complete backward pass ends with exactly one decrease and every failed factorisation or failed line search causes an increase.",
 ["inputs","histories","configurations"],"all option values with increase factor >= 1 and 0 < min <= max, all histories of increases and decreases",
 "Tests never read the regularisation after a sequence of updates; only default options are used.",
 [I],[("update rules",I+": IncreaseRegularization, DecreaseRegularization, ResetInternalVariables"),("call sites",I+": BackwardPass, ForwardPass")],["GetRegularization"],[("rho_","regularisation",I),("drho_","regularisation step",I)])
p("P04","The line search never accepts a worse trajectory",
 "A line search replaces the current trajectory only by a closed-loop rollout whose total cost is strictly lower than the current one and whose ratio of actual to expected decrease lies within the configured bounds, where the expected decrease at step a is -a*(dV1 + a*dV2); the tried steps start at 1 and shrink by the configured factor, at most the configured number of times. If no step qualifies the current trajectory is left unchanged, the regularisation is increased, and no increase in cost is ever reported as progress. Consequently the trajectory an unconstrained solve returns never costs more than the rollout of the initial guess.",
 ["inputs","histories","configurations"],"all problems, trajectories, gains, expected-decrease values and line-search options with a non-negative lower bound",
 "Tests run well-conditioned problems where the full step is nearly always accepted; rejected line searches and cost increases never occur.",
 [I],[("line search",I+": iLQR::ForwardPass"),("solve loop",I+": iLQR::Solve"),("cost",I+": Cost, CalcIndividualCosts")],["trajectory passed to SetTrajectory","GetStats().cost","Cost()"])
p("P05","Every returned trajectory is dynamically feasible",
 "An open-loop rollout, and every trajectory accepted by the line search, starts exactly at the initial state and satisfies x[k+1] = f(x[k], u[k], t[k], h[k]) at every step with the dynamics of that knot point; the closed-loop controls are u[k] + K[k](xnew[k] - x[k]) + a d[k]. With bound checking on, a rollout whose state or control norm exceeds its limit is rejected with the matching status, and never otherwise. Trial rollouts use the times and steps of the user's trajectory and leave that trajectory untouched.",
 ["inputs","configurations"],"all horizons, dynamics, gains, initial states, step lengths and limits",
 "Tests check the final states of two example models; a wrong index, time, step or limit at one knot point, or a wrong control law away from convergence, is masked by convergence.",
 [I,"altro/common/trajectory.hpp"],[("rollouts",I+": Rollout, RolloutClosedLoop"),("time copy",I+": SolveSetup"),("acceptance",I+": ForwardPass")],["trajectory passed to SetTrajectory","GetStatus","RolloutClosedLoop return value"])
p("P06","The inner solver's termination status is truthful",
 "An inner solve reports success only if the last iteration's cost decrease and feedforward-gain measure are both below their tolerances and the iteration ended without a rollout, cost-increase or regularisation failure; it reports an iteration limit only when that limit is reached, performs at most the configured number of inner iterations, never continues past the total limit, and keeps any failure status raised during the iteration. The logged cost decrease is the previous cost minus the current cost, the gradient measure is the mean over knot points of max_i |d_i|/(|u_i|+1), and the iteration counters grow by exactly one per iteration.",
 ["inputs","histories","configurations"],"all statistics, limits, tolerances and statuses at the moment of the check, all iteration histories",
 "Tests only look at solves that converge; the precedence between convergence, limits and failure statuses is never exercised.",
 [I,"altro/common/solver_stats.cpp"],[("checks",I+": iLQR::IsDone, UpdateConvergenceStatistics, NormalizedFeedforwardGain"),("loop",I+": iLQR::Solve, BackwardPass")],["GetStatus","GetStats()"])
p("P07","The constrained solver's success means a feasible inner solution",
 "A constrained solve reports success only when the last inner solve reported success and the constraint violation of the trajectory it returns, measured at that trajectory, is below the tolerance; if the inner solve failed the outer solve reports that same status and stops. Otherwise the penalty, outer-iteration and total-iteration limits are each reported exactly when exceeded, in that order, and each outer iteration runs one inner solve, then one dual update, then the check, then (only if continuing) one penalty update.",
 ["inputs","histories","configurations"],"all outer-loop histories, tolerances, limits and inner statuses",
 "Tests only check that three example problems end as solved; limit and failure exits, and the consistency of the reported violation with the returned trajectory, are not sampled.",
 [S,A,V,I],[("loop",S+": Solve, IsDone, UpdateConvergenceStatistics, Init"),("violation",S+": GetMaxViolation, MaxViolation"),("last evaluation point of the constraints",I+": ForwardPass")],["GetStatus","MaxViolation","GetStats().violations"])
p("P08","The augmented-Lagrangian cost and its derivatives are the exact formulas",
 "At any point the augmented cost is the original cost plus, for every equality and inequality constraint at that knot point, (|P(lambda - rho c)|^2 - |lambda|^2)/(2 rho), with P the projection on the dual cone. Its gradient adds -(P' C)'P(lambda - rho c) and its Hessian blocks add rho (P'C)'(P'C), with P' the projection Jacobian at lambda - rho c and C the constraint Jacobian split into state and control columns; no term is dropped, duplicated or mixed between constraints or blocks.",
 ["inputs","configurations"],"all dimensions, any number of constraints of both kinds, all duals, positive penalties, states and controls",
 "Tests compare single constraints at fixed sizes with finite differences; multiple constraints, mixed types and cross blocks are sparse.",
 [A,V,C],[("per constraint",V+": AugLag, AugLagGradient, AugLagHessian"),("sum",A+": ALCost::Evaluate, Gradient, Hessian")],["ALCost::Evaluate/Gradient/Hessian"])
p("P09","Dual and penalty updates act exactly once on every constraint",
 "A dual update sets every constraint's multipliers to the dual-cone projection of lambda - rho c at the last evaluated point (so inequality multipliers stay non-positive), elementwise with that constraint's own penalties, and changes no penalty; a penalty update multiplies every penalty by that constraint's scaling factor and changes no multiplier. Setting a penalty or scaling reaches every constraint of the addressed kind and no other, resetting zeroes every multiplier, and the updates reach every knot point including the terminal one.",
 ["inputs","histories"],"any number of knot points and constraints, any multipliers, penalties and scalings",
 "Tests check one or two constraints by value; coverage of every constraint at every knot point and the frame (nothing else changes) are not tested.",
 [V,A,S],[("per constraint",V+": UpdateDuals, UpdatePenalties, SetPenalty, SetPenaltyScaling, ResetDualVariables"),("per knot point",A+": UpdateDuals, UpdatePenalties, SetPenalty, SetPenaltyScaling, ResetDualVariables"),("all",S+": UpdateDuals, UpdatePenalties, SetPenalty, SetPenaltyScaling, ResetDualVariables")],["GetDuals","GetPenalty","GetPenaltyScaling"])
p("P10","Cone projections are Euclidean projections with matching derivatives",
 "For vectors of every length the zero cone projects to zero, the identity cone to the vector itself, and the negative orthant to the elementwise minimum with zero, so each result lies in its cone and is a closest cone point; zero and identity are each other's dual and the orthant is its own. The projection Jacobian is the derivative of that projection (zero, identity, the diagonal 0/1 indicator of non-positive entries, all other entries unchanged), and the second-derivative term is zero everywhere.",
 ["inputs"],"all vector lengths and values",
 "Tests use a handful of fixed vectors of length up to five.",
 [C],[("cones",C+": ZeroCone, IdentityCone, NegativeOrthant: Projection, Jacobian, Hessian")],["Projection","Jacobian","Hessian"])
p("P11","Reported violations and penalties are the maxima over all constraints",
 "For each constraint the violation is the norm of c minus its projection on the constraint cone, with c the last evaluated value; the violation at a knot point is the norm over all its equality and inequality constraints and that of the solver the norm over all knot points, so with the default infinity norm it is zero exactly when every constraint holds and otherwise equals the single worst entry. The reported penalty is the largest penalty over all constraints and knot points; asking for the violation of a trajectory evaluates the constraints at that trajectory first, and the constraint report lists every constraint once with its knot-point index and its violation.",
 ["inputs"],"any number of constraints and knot points, all constraint values",
 "Tests check the maximum on examples where one constraint dominates; an omitted knot point or kind that is not the maximum is invisible.",
 [V,A,S],[("per constraint",V+": MaxViolation, GetViolation, MaxPenalty, GetConstraintInfo"),("per knot point",A+": MaxViolation, MaxPenalty, GetConstraintInfo"),("solver",S+": GetMaxViolation, MaxViolation, GetMaxPenalty, GetConstraintInfo")],["MaxViolation","GetMaxViolation","GetMaxPenalty","GetConstraintInfo"])
p("P12","Integrators implement their scheme and its exact Jacobian",
 "For every dynamics, state, control, time and step the explicit Euler and classical fourth-order Runge-Kutta integrators return exactly their scheme, with stages at times t, t+h/2, t+h/2, t+h; the discrete Jacobian they return is the derivative of that same scheme with respect to state and control by the chain rule, with the continuous Jacobian taken at the same stage states and times. A discretised model forwards to its integrator with the model, time and step it was given.",
 ["inputs"],"all dimensions, time-varying dynamics, states, controls, times and steps",
 "Tests use time-invariant example models at one or two points, where a wrong stage time cannot be seen.",
 ["altro/problem/integration.hpp","altro/problem/discretized_model.hpp"],[("schemes","altro/problem/integration.hpp: ExplicitEuler, RungeKutta4: Integrate, Jacobian"),("forwarding","altro/problem/discretized_model.hpp: DiscretizedModel::Evaluate, Jacobian")],["Integrate","Jacobian","DiscretizedModel::Evaluate/Jacobian"])
p("P13","Task division covers every knot point exactly once",
 "For every horizon and any positive number of threads and tasks per thread, the default division of the knot points into tasks is a strictly ordered or at least non-overlapping sequence of blocks starting at knot point 0 and ending after the terminal one, so each knot point is processed by exactly one task; a custom division is accepted exactly when it is strictly increasing from 0 to one past the terminal index with at least one task, and is then kept. Processing a block updates exactly the expansions and costs of its own knot points, so the blocks together have the same result as one serial pass.",
 ["inputs","configurations"],"all horizon lengths, thread counts and tasks per thread; all custom divisions",
 "Tests use three or four combinations; the division accumulates a floating-point step, so failures appear only at particular combinations.",
 [I],[("default division",I+": DefaultTaskAssignment, GetTaskAssignment, ShouldRedoTaskAssignment"),("custom division",I+": SetTaskAssignment"),("blocks",I+": UpdateExpansionsBlock, LaunchThreads")],["GetTaskAssignment","GetKnotPointFunction(k) after UpdateExpansions"],[("work_inds_","block boundaries",I)])
p("P14","A problem stores what it was given and reports completeness truthfully",
 "Setting a cost, dynamics or constraint at a knot point changes exactly that entry (constraints append; the last dynamics also defines the terminal dimensions), list setters place element i at start+i, and reads return what was set; invalid indices and null dynamics or constraints are rejected, not stored. A problem is fully defined exactly when every knot point has a cost, every non-terminal one has dynamics, and the initial state is non-empty with the first model's dimension; constraint counts are the sum of the output dimensions; copies and moves preserve horizon, initial state and all entries.",
 ["inputs","histories"],"all horizons, indices and orders of the setters",
 "Tests build a few fixed problems; copies and incompletely defined problems in unusual orders are not exercised.",
 ["altro/problem/problem.hpp","altro/problem/problem.cpp"],[("setters/getters","altro/problem/problem.hpp: Problem"),("completeness","altro/problem/problem.cpp: Problem::IsFullyDefined"),("constraints","altro/problem/problem.cpp: Problem::SetConstraint")],["IsFullyDefined","NumConstraints","GetDynamics","GetCostFunction","NumSegments"])
p("P15","Trajectories keep consistent times, sizes and contents",
 "A trajectory over N segments has N+1 knot points; a uniform step sets step h and time k*h at every knot point, with zero terminal step and terminal time N*h; building from lists of states, controls and times stores them in order with steps equal to time differences and a zero terminal control and step. Zeroing changes every state and control and nothing else, copies, assignments and moves reproduce every knot point's state, control, time, step and dimensions, and the time-consistency check is true exactly when every step matches the time difference within the tolerance.",
 ["inputs"],"all horizons, steps, contents and tolerances",
 "Tests inspect a few knot points of fixed trajectories.",
 ["altro/common/trajectory.hpp","altro/common/knotpoint.hpp"],[("trajectory","altro/common/trajectory.hpp: Trajectory"),("knot point","altro/common/knotpoint.hpp: KnotPoint")],["State","Control","GetTime","GetStep","CheckTimeConsistency"])
p("P16","Expansions and costs are evaluated at the current trajectory",
 "Updating the expansions evaluates, for every knot point, the gradient and Hessian blocks of that knot point's own cost, its dynamics Jacobian (non-terminal points, with that point's time and step) and its cost at the current state and control, starting from cleared storage so nothing from an earlier evaluation survives; the total cost is the sum over all knot points including the terminal one, and evaluating a given trajectory uses that trajectory.",
 ["inputs","histories"],"all horizons, trajectories, cost and dynamics objects, all previously stored expansions",
 "Tests check a few knot points after one evaluation; stale entries, a wrong time or step, or an omitted knot point is not visible with their time-invariant, fully dense examples.",
 [I,K,"altro/ilqr/cost_expansion.hpp","altro/ilqr/dynamics_expansion.hpp"],[("per knot point",K+": CalcCostExpansion, CalcDynamicsExpansion, Cost, Dynamics"),("all",I+": UpdateExpansionsBlock, UpdateExpansions, Cost, CalcIndividualCosts")],["GetKnotPointFunction(k)","Cost()","GetCosts()"])
p("P17","Derivative interfaces are views of one function, and the checkers decide it",
 "Joint-vector and split state/control forms of a function's value, gradient, Jacobian and Hessian agree (the joint gradient is state part then control part, the joint Hessian is the symmetric assembly of its blocks, a scalar's one-row Jacobian is its gradient, time-free forms use the stored time and step). The finite-difference routines return, for each column, the forward or central difference quotient with the stated step, and a derivative check returns true exactly when the Frobenius error against that quotient is below the tolerance.",
 ["inputs"],"all dimensions, functions, points, steps and tolerances",
 "Tests run the checkers on a few correct derivatives; a check that accepts wrong derivatives in one block or the wrong interface is not sampled.",
 ["altro/common/functionbase.hpp","altro/common/functionbase.cpp","altro/problem/costfunction.hpp","altro/problem/dynamics.hpp","altro/problem/dynamics.cpp","altro/utils/derivative_checker.hpp"],[("adapters","altro/common/functionbase.hpp: ScalarFunction; altro/problem/costfunction.hpp; altro/problem/dynamics.hpp"),("checkers","altro/common/functionbase.cpp; altro/utils/derivative_checker.hpp")],["CheckGradient","CheckJacobian","CheckHessian","FiniteDiffJacobian"])
p("P18","Solver history is one aligned record per iteration",
 "Logging a tracked quantity overwrites only its entry in the current record, opening the first record if there is none; starting a new iteration lengthens every history by one and carries each previous value over, so all histories always have equal length; resetting empties every history and zeroes every counter and the initial cost. Logging an untracked name changes no history.",
 ["histories"],"all sequences of log, new-iteration and reset operations",
 "Tests log a few values in one order.",
 ["altro/common/solver_stats.cpp","altro/common/solver_stats.hpp"],[("records","altro/common/solver_stats.hpp: SolverStats::Log, SetData; altro/common/solver_stats.cpp: NewIteration, Reset, SetPtr, DefaultLogger")],["GetStats().cost, violations, ..."])
p("P19","The task queue is first-in first-out and its size is truthful",
 "Used from one thread at a time, the queue returns elements in exactly the order they were added, an attempt to take from an empty queue reports so and changes nothing, its size is the number of elements added and not yet taken, clearing leaves an empty usable queue, and moving a queue transfers all its elements in order; neither hangs.",
 ["histories"],"all sequences of push, pop, clear and move operations",
 "Tests push and pop a few elements; Clear and moves are not called.",
 ["altro/common/threadsafe_queue.hpp"],[("queue","altro/common/threadsafe_queue.hpp: ThreadSafeQueue")],["Push","TryPop","IsEmpty","Size","Clear"])
p("P20","The constrained problem is lowered completely and faithfully",
 "Initialising the constrained solver builds, for every knot point including the terminal one, an augmented cost from that knot point's own cost and all its equality and inequality constraints in order, with zero multipliers, unit penalties and the default scaling; the inner problem keeps the horizon, the dynamics of each knot point and shares the initial state with the user's problem. The inner solver logs the violation of this very constrained solver, also after the solver has been moved. A solve starts by resetting multipliers and penalties exactly as the options ask and clearing the history.",
 ["inputs","configurations"],"all horizons, numbers of constraints and options",
 "Tests look at one or two knot points of fixed problems.",
 ["altro/augmented_lagrangian/al_problem.hpp",A,S,V],[("lowering","altro/augmented_lagrangian/al_problem.hpp: BuildAugLagProblem"),("constraint copies",A+": ALCost constructor, SetEqualityConstraints, SetInequalityConstraints"),("start",S+": InitializeFromProblem, Init")],["GetALCost(k)","NumConstraints"])
p("P21","Every submitted task runs exactly once before waiting returns",
 "A task handed to the pool is queued exactly once together with its completion. For every interleaving of submitting and worker threads no task is lost, duplicated, run twice or run concurrently with its hand-over: the queue's list is only touched under the mutex that protects that part of it, the mutexes are taken in one order and always released, a push appends exactly its element and a pop removes exactly the first one or truthfully reports an empty queue. A worker of a running pool runs every task it takes exactly once, also if the pool is being stopped meanwhile, and ends only when the pool has been stopped. Waiting waits (up to the time-out per task) for every task submitted since the last wait. Launching starts the requested number of workers on a pool already marked running; stopping ends and joins every worker and keeps the tasks still queued; moving a stopped pool keeps its tasks and destroying a running one stops it.",
 ["schedules"],"all interleavings of workers, submissions, waits, stops and relaunches",
 "A test run samples a handful of the possible interleavings.",
 ["altro/common/threadpool.hpp","altro/common/threadpool.cpp","altro/common/threadsafe_queue.hpp"],[("pool","altro/common/threadpool.cpp: ThreadPool; altro/common/threadpool.hpp: AddTask"),("queue","altro/common/threadsafe_queue.hpp: Push, TryPop, TryPopHead, GetTail, IsEmpty")],["AddTask","Wait","LaunchThreads","StopThreads"])
p("P22","The solver converges to a local optimum",
 "On problems satisfying the usual regularity assumptions the inner solver converges to a stationary point of its cost and the constrained solver to a feasible stationary point within the iteration limits.",
 ["inputs","histories"],"all sufficiently regular problems and initial guesses",
 "Tests solve three example problems.",
 [I,S],[("iteration",I+": iLQR::Solve; "+S+": Solve")],["GetStatus"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
