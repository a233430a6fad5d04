#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/properties.py).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = state
    assert len(title) <= 80, (id, len(title))
    P.append(d)
I = "include/ode_num_int/"

p("A01", "Dense vector expressions, views and norms equal entrywise arithmetic",
  "Any composition of dense vector sums, differences, scalings, block views, elementwise products, dot products, norms, copies and in-place updates gives, entry by entry, the value of the same real arithmetic on plain arrays, also when the target of an assignment appears, at the same positions, in its own right-hand side. A block view reads and writes exactly its window of the vector it was taken from, a copied vector is independent of its source, and a resized vector keeps its leading entries and has zeros elsewhere. Norms of vectors containing a non-finite entry are never reported as finite.",
  ["histories", "inputs"], "every sequence of vector operations up to a bounded length over small vectors, aliased operands and special values",
  "the unit tests build one vector and check two of its entries; aliasing, views of views and in-place histories are never exercised",
  [I+"la/VectorTemplate.h"], [("expression templates, block views, assignment", I+"la/VectorTemplate.h: VectorTemplate, VectorProxy, VectorSum, VectorBlock"), ("norms", I+"la/VectorTemplate.h: euclideanNorm, infNorm")])

p("A02", "Sparse matrices agree with dense arithmetic in every form and view",
  "A sparse matrix, built by any sequence of element writes, in editable or compact form, and seen through any composition of scaling, transposition and rectangular blocks, has at every position the value of the corresponding dense expression, and iterating over it visits every nonzero position exactly once with that value. Products of matrices with vectors and with each other, on either side and for non-square shapes, and sums and differences equal the dense results, including when a matrix is assigned a view or an expression of itself. Writing an element that the compact form does not hold fails with an exception instead of touching another element. Printed tables and assignment statements give the matrix back.",
  ["histories", "inputs"], "every small matrix pattern and every bounded sequence of edits, conversions and view compositions, square and non-square",
  "no automated test touches the sparse matrices; pattern, shape and view composition spaces are combinatorial",
  [I+"la/SparseMatrixTemplate.h"], [("editable and compact storage, element lookup", I+"la/SparseMatrixTemplate.h: SparseMatrixData, SparseMatrixFastData"), ("views", I+"la/SparseMatrixTemplate.h: block, scaled, transposed"), ("products", I+"la/SparseMatrixTemplate.h: operator*")])

p("A03", "LU factorisation solves every factorisable sparse system it accepts",
  "For every square sparse matrix that has an LU decomposition without pivoting, whatever its nonzero pattern and whatever fill-in the elimination causes, factorising it and solving returns x with A*x = b to rounding, and expanding the factorisation gives back the matrix. A matrix that is not square, or in which the stored elements of some row or column do not reach the diagonal, is rejected with an exception.",
  ["inputs"], "all nonzero patterns up to 4x4 (and all banded, arrow and block patterns up to larger sizes) with representative values and all unit right-hand sides",
  "the only test factorises one dense random 10x10 matrix; profile and fill-in errors depend on the zero pattern",
  [I+"lu/LUFactorizer.h"], [("profile computation", I+"lu/LUFactorizer.h: setMatrix, setMatrixFast"), ("elimination and triangular solves", I+"lu/LUFactorizer.h: buildLU, solve")])

p("A04", "A reused or updated LU factorisation equals one made from scratch",
  "After any history of loading matrices of the same or different size and pattern, refreshing values, factorising, solving, copying, failed loads and rank-one secant updates, solving with the factorisation object gives the same result as a fresh object given the current matrix. After a secant update with step s and difference y the factorised matrix maps s to y, wherever its pattern allows, stays within the pattern, and is unchanged if that held before. A load that fails leaves the object usable for the next load.",
  ["histories"], "every bounded sequence of load, refresh, factorise, solve and update operations over matrices of differing size and pattern",
  "tests factorise once per object; stale profile data only shows after a specific sequence of loads",
  [I+"lu/LUFactorizer.h"], [("storage reuse", I+"lu/LUFactorizer.h: setMatrix, setMatrixFast, buildLU"), ("secant update of the factors", I+"lu/LUFactorizer.h: secant and Hart updates")])

p("N01", "A nonlinear solve reports convergence only at a point with a small residual",
  "When the nonlinear solver reports convergence, the point it returns has, re-evaluated on the problem as it is at that time, a finite residual within the requested absolute tolerance, for every descent direction and line search configuration, every starting point and every reuse of the solver on the same or a changed problem. The residual it reports is the one at that point, never one remembered from an earlier run, and non-finite residuals never count as converged. A regular linear problem is solved by the default strategy.",
  ["configurations", "histories", "inputs"], "all descent strategies, scripted residual and Jacobian answers (including non-finite ones), start points and reuse histories up to a bounded length",
  "tests never run a nonlinear solve; stale or non-finite residuals need particular histories and answers",
  [I+"alg/NewtonSolver.h", I+"alg/NewtonIterationPerformerImpl.h", I+"la/VectorTemplate.h"], [("iteration loop and status", I+"alg/NewtonSolver.h: run"), ("residual caching", I+"alg/NewtonIterationPerformerImpl.h: setInitialGuess, reset, performIteration"), ("residual norm", I+"la/VectorTemplate.h: infNorm")])

p("N02", "Nonlinear solves terminate within their limits with the true status",
  "A nonlinear run performs at most the configured number of iterations per attempt; if the attempt fails and the strategy says a restart with fresh data may help, it restarts once from the initial guess with a hard reset. It stops with the status that describes what happened: converged, diverged, terminated by an observer, or iteration limit reached. Observers see every iteration once with consecutive indices, the regularization strategy is asked once per iteration and can keep the run going, and the outcome of each attempt is reported to the strategy exactly once. Exceptions reach the caller and do not affect later runs.",
  ["histories", "fault_sequences"], "every sequence of per-iteration answers (progress, stall, converged, throw, restart helps or not) up to the iteration limit",
  "the answer sequences grow exponentially with the iteration count and no test scripts them",
  [I+"alg/NewtonSolver.h", I+"alg/interfaces/NewtonSolverInterface.h"], [("iteration loop", I+"alg/NewtonSolver.h: run"), ("parameters and components", I+"alg/interfaces/NewtonSolverInterface.h")])

p("N03", "Descent directions solve the linear model with the Jacobian they promise",
  "Every descent strategy returns the direction d with J*d = -f for the Jacobian it promises: the current one (simple), the first one (constant), or the one carried by its secant updates, where an update restricted to the sparsity pattern changes only stored entries and an unrestricted one satisfies the secant condition of the last step. A zero step leaves the matrix unchanged. After a hard reset every strategy uses a Jacobian evaluated at the current point, and it evaluates Jacobians exactly when it has none to keep or announces a refresh.",
  ["histories"], "every bounded sequence of direction requests, successful and failed outcomes, and soft and hard resets, for every strategy, over small linear and nonlinear problems",
  "a stale Jacobian still converges on the easy problems a test would use",
  [I+"alg/SimpleNewtonDescentDirection.h", I+"alg/ConstJacobianNewtonDescentDirection.h", I+"alg/JacobianBroydenUpdateNewtonDescentDirection.h", I+"alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h", I+"alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h", I+"alg/JacobianHartUpdateNewtonDescentDirection.h", I+"alg/DefaultJacobianProvider.h"],
  [("strategies", I+"alg/Jacobian*NewtonDescentDirection.h"), ("providers", I+"alg/DefaultJacobianProvider.h, SparseJacobianProvider.h")])

p("N04", "Numerical Jacobians are right, and sparse evaluation equals dense evaluation",
  "A numerically computed Jacobian of any mapping agrees with the true derivative to differencing accuracy, leaves the evaluation point unchanged, and the grouped sparse evaluation gives, for every sparsity pattern that covers the mapping's dependencies, exactly the entries of that pattern with the same values as column by column evaluation, while evaluating the mapping no more times than one plus the number of columns. Entries outside the pattern are absent, and the pattern is determined anew after a hard reset or when a trimmer has been removed. A trimmed Jacobian keeps exactly the entries its criterion selects.",
  ["inputs", "histories"], "all sparsity patterns up to 4x4 (and structured ones beyond), patterns that change between points, all trimming settings on a small grid",
  "column grouping conflicts occur only for particular patterns",
  [I+"alg/computeJacobian.h", I+"alg/SparseJacobianCalculator.h", I+"alg/SparseJacobianProvider.h", I+"alg/JacobianWidthBasedTrimmer.h", I+"alg/JacobianThresholdBasedTrimmer.h"],
  [("finite differences", I+"alg/computeJacobian.h"), ("column grouping", I+"alg/SparseJacobianCalculator.h"), ("trimmers", I+"alg/Jacobian*Trimmer.h")])

p("N05", "Mapping adaptors compute exactly the adapted function in both directions",
  "Narrowing a mapping by disabling any set of inputs and any set of outputs yields exactly the remaining outputs as functions of the remaining inputs with the disabled inputs held, and reduce and expand are inverse to each other on what they keep. Reordering inputs and outputs by any index sequences, and scaling by any nonzero diagonal or normalisation, are undone exactly by their inverse. Solving the adapted problem and mapping back gives a solution of the original.",
  ["inputs", "configurations"], "all subsets of disabled inputs and outputs and all reorderings for up to four variables, square and non-square mappings",
  "asymmetric subsets and non-involutive permutations are needed to tell the two directions apart; no automated test covers adaptors",
  [I+"alg/VectorNarrowingMapping.h", I+"alg/VectorReorderingMapping.h", I+"alg/DiagonalMapping.h", I+"alg/MappingNormalizer.h", I+"alg/interfaces/VectorBijectiveMapping.h"],
  [("narrowing", I+"alg/VectorNarrowingMapping.h"), ("reordering", I+"alg/VectorReorderingMapping.h"), ("scaling", I+"alg/DiagonalMapping.h, MappingNormalizer.h")])

p("N06", "The line search returns a consistent point and residual, never a worse one",
  "Whatever residuals the problem answers along the search direction, the line search evaluates no more trial points than its configured limit, and the point, residual and residual norm it hands back belong together. It reports success only if the norm was reduced as its criterion requires, and on failure the iteration does not move to a point with a larger residual than an accepted one. Non-finite trial residuals are never accepted.",
  ["fault_sequences", "inputs"], "every sequence of trial residual answers (smaller, equal, larger, non-finite) up to the trial limit, over all line search settings on a small grid",
  "tests never run the line search; the accepted trial is determined by a sequence of answers",
  [I+"alg/SimpleNewtonLinearSearch.h", I+"alg/NewtonIterationPerformerImpl.h"], [("trial loop", I+"alg/SimpleNewtonLinearSearch.h"), ("iteration", I+"alg/NewtonIterationPerformerImpl.h")])

p("I01", "Observers are called once each, in order, exactly while they are registered",
  "After any history of adding and removing observers, by handle or by a scoped owner that may be moved or finished early, and from within notifications, a notification calls every observer registered when it starts and not removed before its turn exactly once, in order of registration, each with the arguments given, and none that was removed. Handles are never shared by two live observers, removing an unknown handle changes nothing, an observer's exception reaches the caller and leaves the list usable, and the answer of flag-returning observers is true exactly if one of them says so, also through forwarding. Setting an observable property stores the value first and then notifies every change observer with it.",
  ["histories"], "every bounded sequence of add, remove, scoped add, owner copy, move and destruction, notify and nested remove/add during a notification, over one and two lists",
  "re-entrant removal and owner lifetime orders are combinatorial; no test covers them",
  [I+"infra/cxx_observers.h", I+"infra/def_prop_class.h"], [("element lists and scoped owners", I+"infra/cxx_observers.h"), ("property holders", I+"infra/def_prop_class.h")])

p("I02", "Option values keep type and value through assignment, text and back",
  "A typed option holds the last value successfully assigned to it, given in its own type or as text, and reading it back in its type or as text and re-parsing that text yields an equal value; for floating point options this holds for every finite number. Text that does not denote a value of the option's type and numbers out of its range are rejected with an exception and leave the option unchanged. Options in nested groups are addressed by dotted paths, a malformed or unknown path is rejected with an exception, a copy of an option, a group or a whole set does not change when the original is assigned, and a component written to an option is recreated from it with all its settings.",
  ["inputs", "histories"], "all types, boundary and malformed texts from a generated alphabet, all bounded assignment sequences and paths",
  "value domains and malformed texts are unbounded and conversions only go wrong at their edges; no test covers options",
  [I+"infra/OptionalParameters.h"], [("typed values and conversions", I+"infra/OptionalParameters.h: Value, Parameter"), ("paths", I+"infra/OptionalParameters.h: parsePath, parameterValue")])

p("I03", "Setting an option changes exactly that option, and a rejected one nothing",
  "After any sequence of settings made through a configuration, accepted or rejected, every option reads as the last value accepted for it, the parts in use are those that the options name, and all other options are untouched, in this and in every other configuration. Values not of an option's type, unknown names and unknown paths are rejected with an exception and leave no trace. When a part is replaced the options of the old one are gone and the new one starts from its defaults. A solver configured step by step behaves exactly, bit for bit, like one that got all values at once. A part may be left empty without a crash: a solver that needs it then reports what is missing with an exception when it is run.",
  ["histories"], "every bounded sequence of settings from an alphabet of valid and invalid names and values over nested components",
  "the interaction of nested component creation with earlier settings grows with the square of the options; no test covers it",
  [I+"infra/ComponentConfiguration.h", I+"ode/OdeSolverConfiguration.h", I+"infra/OptionalParameters.h"],
  [("option tree", I+"infra/ComponentConfiguration.h: setValue"), ("component replacement", I+"infra/Factory.h: FactoryMixin parameters; "+I+"ode/OdeSolverConfiguration.h")])

p("I04", "Every component is created by its name, reports it, and is linked to its owner",
  "Every name offered creates a fresh object of the right kind that reports this name and shares no settings with any other object; the list of names is exactly the set of names that can be created, for every interface, and other names are rejected with an exception that leaves all lists as they were. Registering further kinds under new names, in any order and under several interfaces, adds exactly those names. Whatever parts of a Newton solver are replaced, in any order, as objects or as named options, the other parts are kept, every part sees the current mapping, and the solver works. The event controller and the error norm of an ODE solver always see the system the solver has.",
  ["configurations", "histories"], "all registered interfaces and names, and all pairs of replacement operations on solver components",
  "registration happens at start-up across many templates, a wrong name or kind only shows when that one is used",
  [I+"infra/Factory.h", I+"ode/reg/OdeSolverClassesRegistrator.h", I+"alg/reg/AlgebraicSolverClassesRegistrator.h", I+"infra/PerTypeStorage.h"], [("factory", I+"infra/Factory.h"), ("registrators", I+"ode/reg, "+I+"alg/reg")])

p("O01", "Each explicit method attains its full nominal order on every smooth system",
  "Every step of each explicit solver (Euler, RK4, Dormand-Prince 4(5), 5(6), 7(8) in both modes, Gragg plain and smoothed, extrapolation of Euler, Gragg and RK4 with every step sequence and number of stages) reproduces the Taylor expansion of the exact solution up to the order the solver reports, for every autonomous or time-dependent system, from any start and with or without error control. The error estimate of a pair vanishes up to the lower of its two orders, is the difference of the two solutions, and is not blind to errors of the next order. The reported orders are the published ones: 1, 4, 4/5, 5/6, 7/8 and 2, and for extrapolation the number of stages (twice that for symmetric methods) or the order of the reference method, whichever is higher.",
  ["inputs"], "all elementary differentials (rooted trees) up to the nominal order, which span all smooth right-hand sides, for every solver and mode",
  "a wrong coefficient can leave the order unchanged on the linear and scalar problems a test would use; the complete set of order conditions is needed",
  [I+"ode/OdeSolverExplicitRK.h", I+"ode/OdeSolverExplicitEmbeddedRK.h", I+"ode/OdeSolverDOPRI45.h", I+"ode/OdeSolverDOPRI56.h", I+"ode/OdeSolverDOPRI78.h", I+"ode/OdeSolverRK4.h", I+"ode/OdeSolverExplicitEuler.h", I+"ode/ExplicitRKHelper.h", I+"ode/OdeSolverGragg.h", I+"ode/OdeSolverExtrapolator.h"],
  [("tableaus", I+"ode/OdeSolverDOPRI45.h, OdeSolverDOPRI56.h, OdeSolverDOPRI78.h, OdeSolverRK4.h"), ("stage evaluation", I+"ode/ExplicitRKHelper.h")])

p("O02", "Adaptive steps are accepted exactly when their error is within tolerance",
  "In every adaptive solver and mode, whatever the controller answers, a step is accepted exactly when the controller accepts it for the error norm computed for that attempt, the step size attempted and the order of the error estimate; otherwise it is repeated from the same time and state with the step size the controller gave. Time and state advance by exactly the accepted step, as a fixed step of that size would, the next step uses the step size chosen by the controller, and non-finite errors are never accepted. When the step size falls to the configured minimum the step fails with an exception, and rejected attempts leave time and state alone. With error checks disabled steps have the initial size and the controller is not asked; a missing controller or norm is reported by an exception.",
  ["fault_sequences", "configurations"], "every sequence of error norm answers (small, borderline, large, non-finite) over several steps, for every adaptive solver and mode",
  "rejections and re-tries occur only for particular error sequences that smooth test problems do not produce",
  [I+"ode/OdeSolverExplicitEmbeddedRK.h", I+"ode/OdeSolverExtrapolator.h", I+"ode/OdeSolverRosenbrock_W1.h", I+"ode/OdeSolverRosenbrock_SW2_4.h", I+"ode/OdeStepSizeSimpleController.h"],
  [("accept/reject loop", I+"ode/OdeSolverExplicitEmbeddedRK.h: doStep"), ("controller", I+"ode/OdeStepSizeSimpleController.h")])

p("O03", "The step size controller keeps its promises for every error and setting",
  "For every error norm, step size, order and setting the controller accepts exactly errors within the tolerance; NaN and infinite errors are rejected. After acceptance it proposes the step times insurance * (tolerance/error)^(1/(order+1)), limited by the configured largest growth and the maximum step size (a step already larger is kept), and keeps the step when this is less than the configured smallest growth or when the error is exactly zero. After rejection it proposes the same formula limited by the configured largest reduction, which is strictly smaller than the rejected step, so that a persistent bad error reaches any threshold. Proposed step sizes are finite, the answer depends only on the arguments and settings, and observers see each answer. The error norm is the largest magnitude and NaN if any entry is.",
  ["inputs"], "a grid of error norms including 0, denormal, infinite and NaN, step sizes, orders and all parameter combinations from boundary values",
  "the boundary cases of the step size formula are values no trajectory in a test reaches",
  [I+"ode/OdeStepSizeSimpleController.h"], [("step size formula", I+"ode/OdeStepSizeSimpleController.h: fixStepSize, proposeStepSize")])

p("O04", "Every switching event inside a step is found, located and typed correctly",
  "When a switching function changes sign between the start and the end of a step in a direction that is watched, or reaches exactly zero at the end, the step is cut at the earliest such crossing, located by linear interpolation and therefore exactly for functions linear in the step; the system is told once, with the state and time there, which function triggered and in which direction, and the state it chooses is the result. Without a watched change nothing is cut and the step stands. This holds for any number of functions, for functions that start or end at exactly zero, and over any sequence of steps, retries and resets; a function that touches zero from its unwatched side triggers nothing. After a switch a function continues from zero on its new side, from its interpolated value, or from its recomputed value as configured; one watched in a single direction triggers once more if it leaves zero in that direction, and then not again before it has returned. A cut never lies outside the step, and no sequence of finite values makes detection fail.",
  ["histories", "inputs"], "every sequence of switching function values (negative, exact zero, positive, small) for one to three functions over several steps, and all watch masks",
  "exact zeros and simultaneous crossings at step boundaries have to be produced on purpose in every combination",
  [I+"ode/LinearOdeEventController.h", I+"ode/interfaces/OdeEventController.h"], [("crossing detection and location", I+"ode/LinearOdeEventController.h: atStepStart, atStepEnd")])

p("O05", "Solvers stop at events, apply the phase switch and continue from it",
  "For every solver with event detection, including those that make several substeps by another solver, an event inside a step ends that step at the event time with the state there, tells the system about the switch exactly once with the transition that observers are told too, takes over exactly the state and phase the system chose, and continues from there; time never moves backwards. Events are not lost between steps nor after a new initial state is set, and the next step has the configured size after a switch where one is set, otherwise the size chosen before. Every step, also the one that ends at the event, is the step a fresh solver would make in the mode before the switch; modes are never mixed within a step. A system without switching functions that cuts a step itself is respected.",
  ["histories", "configurations"], "every solver with every small configuration on systems with known event times and scripted event sequences, over several consecutive events",
  "the handling spans solver, controller and model; each solver has its own copy of the sequence, only one of which an example exercises",
  [I+"ode/interfaces/OdeSolver.h", I+"ode/OdeSolverExplicitRK.h", I+"ode/OdeSolverExplicitEmbeddedRK.h", I+"ode/OdeSolverRosenbrock_W1.h", I+"ode/OdeSolverImplicitEuler.h", I+"ode/OdeSolverGragg.h", I+"ode/OdeSolverExtrapolator.h"],
  [("event handling in the solvers", I+"ode/OdeSolver*.h: doOneStep event blocks")])

p("O06", "Linearly implicit steps satisfy their defining equations for every system",
  "Every step of a Rosenbrock-type solver, of whatever size and after any number of rejected attempts, satisfies the method's stage equations with the Jacobian of the system taken at the point of the last (hard) initial state, for systems of first order, second order and mixed structure and every implicitness parameter; a configured trimmer is applied to the blocks of that Jacobian. The first order method has local errors of second power in the step size and the second order one of third power, for autonomous and time dependent systems, and the error estimate of the latter is minus the leading term of its local error. Stiff decaying components are damped at any step size and do not disturb slow ones. A new solver with default options is usable and starts with the default initial step size.",
  ["inputs", "histories"], "all elementary differentials up to the nominal order, all structures with up to two second- and two first-order variables, all accept/reject sequences up to a bounded length",
  "the W-method hides a wrong Jacobian behind reduced stability, and stale factors need a rejected step",
  [I+"ode/OdeSolverRosenbrock_W_base.h", I+"ode/OdeSolverRosenbrock_W1.h", I+"ode/OdeSolverRosenbrock_SW2_4.h"],
  [("Jacobian assembly", I+"ode/OdeSolverRosenbrock_W_base.h: buildJacobian"), ("stages and retry", I+"ode/OdeSolverRosenbrock_SW2_4.h, OdeSolverRosenbrock_W1.h")])

p("O07", "An implicit Euler step solves the implicit equation or leaves the state alone",
  "When a step of the implicit Euler solver succeeds, the new state satisfies the weighted implicit equation of the step (positions from velocities included) for the step size used, to the nonlinear tolerance, and the time has advanced by exactly that size; this holds for every weight, predictor and number of predictor steps, reordering, descent strategy and Jacobian provider, and for first order, second order and mixed systems. The nonlinear iteration starts at the predicted state, or the current one without a predictor. When the nonlinear solve fails the failure is raised, time and state are exactly those before the step, and a later attempt succeeds if a new solver's would. The step mapping evaluates the residual for its current state, time, step size, weight and system, whatever was set before.",
  ["configurations", "inputs"], "all combinations of predictor, reordering, weight and algebraic strategy on small systems of every structure",
  "a wrong but convergent nonlinear equation gives a plausible trajectory",
  [I+"ode/OdeSolverImplicitEuler.h", I+"ode/OdeStepMappingEuler.h", I+"alg/NewtonSolver.h"], [("step equation", I+"ode/OdeStepMappingEuler.h"), ("predictor and solve", I+"ode/OdeSolverImplicitEuler.h")])

p("O08", "Solution does not depend on declaring variables as second order pairs",
  "For every solver, a system with position/velocity pairs gives the same trajectory, with the same step sizes, whether none, some or all of its pairs are declared as such and the rest written out as first order variables: to rounding for explicit methods, and to the accuracy of difference quotients or of the nonlinear iteration for the others; with any number of pairs and of additional first order variables. The derivative of a position is always its velocity, and the right-hand side seen as a mapping has the sizes, variable ids and values of the system at the time set.",
  ["configurations", "inputs"], "all solvers and all splits of up to four variables into pairs and first order variables",
  "tests and examples use one structure; block offsets only matter for the mixed ones",
  [I+"ode/ExplicitRKHelper.h", I+"ode/interfaces/OdeRhs.h", I+"ode/interfaces/OdeRhsVectorMapping.h", I+"ode/OdeSolverGragg.h", I+"ode/OdeStepMappingEuler.h"], [("block structure", I+"ode/interfaces/OdeRhs.h: secondOrderVarCount, firstOrderVarCount")])

p("O09", "A reused solver behaves exactly like a fresh one",
  "Setting an initial state on a solver that has been used before, after any history of steps, failures (exceptions and undefined values of the right-hand side), events, changed options and step sizes and other systems, makes it continue exactly, bit for bit, as a new solver with the same options, system, step size and initial state would, in whatever order system, step size and state are set; it evaluates the right-hand side at the same points. Replacing the system between two steps has the effect of starting a new solver there. Nothing of the earlier run, such as factors, stored stages, error history or event state, influences the new one.",
  ["histories"], "every solver, every bounded sequence of uses before the reset, compared differentially with a fresh solver",
  "tests use each object once",
  [I+"ode/interfaces/OdeSolver.h", I+"ode/OdeSolverExplicitEmbeddedRK.h", I+"ode/OdeSolverRosenbrock_W_base.h", I+"ode/OdeSolverGragg.h", I+"ode/OdeSolverExtrapolator.h", I+"ode/OdeSolverImplicitEuler.h"], [("initial state", I+"ode/OdeSolver*.h: setInitialState")])

p("O10", "A failing right-hand side never corrupts the solver's time and state",
  "If the system's right-hand side or its zero functions throw at any of their evaluations during a step, the exception reaches the caller, and the solver's time and state are exactly those at the end of the last completed step. Continuing after the failure completes the same steps, with the same sizes, states and events, as if the failed attempt had not been made, bit for bit for explicit and Rosenbrock methods and to the nonlinear tolerance for implicit ones. This holds for every solver, with and without step size adaptation, events, nested solvers and predictors.",
  ["fault_sequences"], "every solver, every position of one or two failures among the evaluations of the first steps",
  "failure positions are one per evaluation and solver, no test injects any",
  [I+"ode/OdeSolverExplicitRK.h", I+"ode/OdeSolverExplicitEmbeddedRK.h", I+"ode/OdeSolverGragg.h", I+"ode/OdeSolverExtrapolator.h", I+"ode/OdeSolverRosenbrock_W1.h", I+"ode/OdeSolverRosenbrock_SW2_4.h", I+"ode/OdeSolverImplicitEuler.h"], [("step methods", I+"ode/OdeSolver*.h: doOneStep")])

p("O11", "Observers see every attempt, evaluation and iteration once and do not disturb",
  "Around every attempt to make a step, accepted, cut by an event or rejected, the observers before and after a step are called once each, in this order, with the size of that attempt and with the solver at the time and state it has then; the first attempt is announced with the initial step size the solver was given, whatever the solver did before. A completed step is reported as accepted exactly once; a rejected attempt leaves time and state and is repeated with a smaller size; an accepted one advances time by its size, or to the event if it is reported as truncated. The system is told of every attempt once, with the state it starts from, and by explicit Runge-Kutta and Rosenbrock methods of the derivative there, once; a nested solver tells it of its own steps in the same way. Evaluations of the test models are reported before and after, and with implicit Euler every iteration and every Jacobian refresh of the Newton solver in use is reported exactly once, also after parts of it have been replaced or the parameters applied again; Jacobian refreshes start and finish in turn. Observers that only read change no number; after an observer throws, before or after an attempt, the run continues with the steps of a run without observers; an iteration observer that asks to stop ends the step with an exception and leaves time and state.",
  ["histories", "configurations"], "every solver with every sequence of acceptances, rejections and events over several steps",
  "outputs and statistics depend on this protocol in all its rare branches",
  [I+"ode/interfaces/OdeSolver.h", I+"ode/interfaces/OdeRhs.h", I+"ode/OdeSolverExplicitEmbeddedRK.h", I+"ode/OdeSolverExtrapolator.h"], [("observer calls", I+"ode/OdeSolver*.h: odeSolverPreObservers, odeSolverPostObservers")])

p("O12", "A configured run ends at the requested time and reports what happened",
  "A configuration run with solveOde starts from the configured initial state and time (init_state if given, otherwise that passed) and ends with the first accepted step that reaches the initial time plus the duration, making at least one step: it never stops early and makes no step after it, for every solver, initial time and duration. The solution outputs write a row or column for the initial state and then one for each accepted step that comes at least the output interval after the last row (for every step if the interval is not positive), up to the configured number of columns, with time and state of that step; headers name each column after its variable, also when the middle of a long state is left out, and variable names are unique. The general output reports attempts at the same interval, and every truncated one, with size, error, outcome and each Newton iteration. The statistics give the numbers of attempts, rejections, size changes, truncations, evaluations and Jacobian refreshes made in that run and the average size of accepted steps, also when a configuration is run again. A missing solver or system, a state of wrong size, an unknown type or a file that cannot be opened is rejected with an exception; after a rejected or failed run nothing stays attached to solver or system, and the outputs of a failed run describe the steps it made; the corrected configuration runs as usual.",
  ["configurations", "inputs"], "all solvers, outputs and combinations of initial time, duration, step size and output interval on a boundary grid",
  "off-by-one steps and rows depend on rounding of particular interval ratios",
  [I+"ode/OdeSolverConfiguration.h", I+"ode/ode_solver_output.h"], [("run loop", I+"ode/OdeSolverConfiguration.h: solveOde, OdeSolverConfiguration::apply"), ("outputs", I+"ode/ode_solver_output.h")])

p("O13", "Extrapolation combines stages so that all promised error terms cancel",
  "For every step sequence (the three named ones and user's own ones of different numbers in any order), number of stages, symmetry and reference solver, a step makes one stage per number of the sequence, each from the time and state at the start of the step with that many equal steps of the reference solver that exactly cover the step, and the result is the polynomial extrapolation of the stage results to step size zero: with k stages it is exact when the stage results contain only the error terms h, ..., h^(k-1) (h^2, ..., h^(2k-2) if symmetric). The error estimate is the difference between this and the extrapolation without the first stage, and the controller is told the order of the latter; rejected attempts are repeated from the same start. Stages, sequence, symmetry and error check can be changed between steps. The named sequences are 1,2,4,8..., 1,2,3,4,6,8,12... and 1,2,3,4.... No stages, a single stage with error check, a missing reference solver or sequence, and a reference solver whose steps do not add up to the step are reported by an exception that leaves time and state.",
  ["configurations", "inputs"], "all sequences, stage counts from one to eight, and all monomials of the error expansion",
  "individual tableau entries matter only for high stage counts",
  [I+"ode/OdeSolverExtrapolator.h", I+"ode/ExtrapolatorStepSequenceRomberg.h", I+"ode/ExtrapolatorStepSequenceBulirsch.h", I+"ode/ExtrapolatorStepSequenceHarmonic.h"], [("tableau", I+"ode/OdeSolverExtrapolator.h"), ("sequences", I+"ode/ExtrapolatorStepSequence*.h")])

p("O14", "Initial states, names and model systems are consistent for every size",
  "After any history of settings (sizes up or down, values for any of the variables, time, as numbers or text) an initial state holds the values last given, zeros elsewhere and the given time, reads back as options that recreate it, and a negative size is rejected. Every system structure has one variable id and one unique name per variable, of equal length, in alphabetical order and ending in its index. Each built-in system reports the structure and evaluates exactly the equations it is documented to have, for all parameters, states and times and whatever the size of the vector for the result, and tells observers of each evaluation; its parameters read back as set, and applying them again changes nothing. The bouncing ball hitting the plane is reflected with the recovery factor or sticks; computed with any solver that is exact for free flight it never gets below the plane, its energy is kept in flight, lost at impacts as stated and never grows, and once at rest it stays. A system object used again, also after the ball has come to rest, behaves bit for bit like a new one.",
  ["inputs", "histories"], "all sizes and resize sequences up to a bound, parameter and state grids for each model, all phase change histories",
  "models are only exercised by a single example run",
  [I+"ode/SpecifiedOdeInitState.h", I+"ode/OdeVarNameGenerator.h", I+"ode/test_models/BouncingBall.h", I+"ode/test_models/SlidingPoint.h", I+"ode/test_models/Oscillator.h", I+"ode/test_models/CoupledNonlinearOscillators.h", I+"ode/test_models/StiffOde1D.h"], [("initial state", I+"ode/SpecifiedOdeInitState.h"), ("names", I+"ode/OdeVarNameGenerator.h"), ("models", I+"ode/test_models")])

p("O15", "Error estimates, their statistics and convergence decisions are the true ones",
  "For every series of errors, scalar or vector, the statistics hold number, largest magnitude, sum, sum of squares, mean and root mean square deviation from the mean of the magnitudes, in any order of accumulation, combination and copying; they are not finite if an error is not. Global error estimation by Richardson's method gives, for every order, the true error of a step when the local error is a pure power of the step size, in general 2^p/(2^p-1) times the difference of two half steps and a full step from the same state, time and phase; it samples every step without event once, tells observers time, step size and error, and covers the duration. The solution goes on exactly as in a run with half the steps, with every event processed once. A missing solver and step sizes that are not positive are rejected, and nothing stays attached to the solver. The error estimator of nonlinear solvers reports the residual norm and the relative change of the solution, and the status that these and the configured tolerances and limits define, never convergence for errors that are not finite.",
  ["inputs", "histories"], "all orders and ratios on a grid, pure-power and degenerate data, all accumulation and merge orders up to a bounded length",
  "degenerate inputs divide by zero in ways a smooth example never shows",
  [I+"ode/util/RichardsonErrorCalculator.h", I+"alg/SimpleErrorEstimator.h", I+"util/ErrorStats.h"], [("Richardson formulas", I+"ode/util/RichardsonErrorCalculator.h"), ("statistics", I+"util/ErrorStats.h")])

p("N07", "A nonlinear solver can be put together in any order",
  "In whatever order the parts of a nonlinear solver (iteration performer, error estimator, descent direction, Jacobian provider, trimmer, line search, regularization strategy) and its problem are set or replaced, as objects, by name, or by name among all parameters, also parts that bring parts of their own or were used before: the solver has the parts set last, shows them in its parameters, keeps the others, all of them work on the same problem, the regularization strategy watches the error estimator and the descent direction in use, and a solve finds the root of the problem set last without evaluating any other.",
  ["operation sequences"], "all sequences of replacements of parts in all the ways there are for it",
  "tests put solvers together in one order; a link that is not renewed shows only after a certain sequence of replacements",
  [I+"alg/interfaces/NewtonSolverInterface.h", I+"alg/interfaces/NewtonDescentDirection.h", I+"alg/interfaces/JacobianProvider.h"], [("links", I+"alg/interfaces/NewtonSolverInterface.h: setComponent, setParameters, replaceIterationPerformer")])
p("O16", "Calculations carried on side by side do not influence each other",
  "Two calculations of any kind (solvers of any type, nonlinear solves, configured runs, error estimations, Jacobians), each with objects of its own, give bit for bit the results each gives alone, evaluate their systems at the same points, and see the same events, switches and observer calls, however they are interleaved: one may be carried on, or made from beginning to end, while the other is in the middle of a step, iteration, evaluation, switch or observer call. This also holds for solvers that share one system object without state.",
  ["schedules", "inputs"], "all ordered pairs of kinds of calculations and all interleavings with a bounded number of switches at the points where code of the user is called",
  "tests make one calculation at a time; buffers kept between calls, or shared by objects, show only when another calculation gets in between",
  [I+"ode/ExplicitRKHelper.h", I+"ode/interfaces/OdeSolver.h", I+"alg/interfaces/NewtonSolverInterface.h", I+"ode/OdeSolverConfiguration.h"], [("work space", I+"ode/OdeSolver*.h, alg/*.h: data members and local variables")])

p("I05", "Help describes the settings of the parts in use",
  "For every configuration that can be reached by choosing parts, at any depth and also after settings that were refused, help on a part lists exactly the implementations that can be chosen, marks the one in use and gives its description, and help on an option is what the part in use, not another one, says about it. Options that all solvers have are explained in every solver. Asking for something that is not an option, or that no help exists on, is answered by saying so, never by an exception or the help on something else. The help is the same for a path given as text or as a list, and asking for it changes no setting.",
  ["histories", "inputs"], "all choices of parts, all pairs and sequences of replacements up to a bound, all options at every level of each",
  "help is only ever read by people, for the few configurations they happen to use",
  [I+"ode/OdeSolverConfiguration.h", I+"infra/OptionalParameters.h", I+"infra/ComponentConfiguration.h"], [("help", I+"ode/OdeSolverConfiguration.h, infra/OptionalParameters.h"), ("solvers", I+"ode/OdeSolver*.h")])

p("U01", "Numbers, identifiers and times are recognised and printed faithfully",
  "The recognisers accept exactly the texts that denote an identifier, an integer, a hexadecimal or a real number, for every text. Time spans are printed as hours, minutes, seconds and milliseconds that add up to the given span, with two- and three-digit fields. Rounding returns a nearest integer, the modular helpers return the representative in the promised range for every sign combination, and cubic interpolation reproduces the given end values and slopes together with its derivatives.",
  ["inputs"], "all texts up to a bounded length over an alphabet of significant characters, and boundary grids of numbers",
  "recognisers are wrong on rare characters only",
  [I+"util/lex_idnum.h", I+"util/cxx_str_fmt_num.h", I+"util/sys_time.h", I+"util/m_inline.h"], [("lexing", I+"util/lex_idnum.h"), ("formatting", I+"util/cxx_str_fmt_num.h, sys_time.h"), ("helpers", I+"util/m_inline.h")])

p("U02", "Timing statistics count every interval once and sum to the total",
  "Over any sequence of starts, stops, laps and nested measurements the timers return exactly the ticks that passed between the two readings, also across wrap-around of the counter, and the statistics hold the number of completed intervals and the sum of their durations; merging, copying or resetting statistics gives the totals of the parts. A measurement ended by an exception is still counted and ended exactly once. Conversion of ticks to milliseconds is proportional to the calibrated frequency and refused after too short a calibration. The factorisation statistics count every load, refresh, factorisation, solve and update once, and those of a descent strategy total those of all its directions since they were last taken over.",
  ["histories"], "every bounded sequence of measurement operations under a clock controlled by the checker",
  "durations come from a real clock in tests and cannot be asserted",
  [I+"timing/TimingStats.h", I+"timing/TimerCalibrator.h", I+"timing/OpaqueTickCounter.h"], [("statistics", I+"timing/TimingStats.h"), ("clock", I+"timing/OpaqueTickCounter.h")])

p("U03", "Basic building blocks behave as the plain things they stand for",
  "Values that start at zero are zero wherever and however they are created, and every operation on them, for every type of number and pointer and every pair of operands, gives the value and the reference the plain type gives. The storage cell of a pair of types is one and the same object wherever it is accessed from, also from other source files, keeps its address and content, and is shared with no other pair; types private to a source file have registered names of their own even if a type of another source file is called the same. Exceptions carry exactly the text they are made with, through copying and catching by any base. A temporary seen through a pointer is that temporary, and simple fields return what was last set.",
  ["inputs", "histories"], "all operations on all pairs of boundary values of all number types, all orders of first access to storage cells from two source files",
  "the blocks are used everywhere with a few types and values only",
  [I+"infra/cxx_zeroinit.h", I+"infra/PerTypeStorage.h", I+"infra/cxx_exception.h", I+"infra/cxx_mock_ptr.h", I+"infra/def_getset.h"], [("zero initialised values", I+"infra/cxx_zeroinit.h"), ("cells", I+"infra/PerTypeStorage.h, src/PerTypeStorage.cpp"), ("exceptions", I+"infra/cxx_exception.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
