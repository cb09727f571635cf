#!/usr/bin/env python3
# Regenerates properties.jsonl (the text lives here so that it can be edited comfortably).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I="include/mpc/"
PB=I+"LMPC/ProblemBuilder.hpp"; LO=I+"LMPC/LOptimizer.hpp"; LM=I+"LMPC.hpp"; IM=I+"IMPC.hpp"
NM=I+"NLMPC.hpp"; NO=I+"NLMPC/NLOptimizer.hpp"; CO=I+"NLMPC/Constraints.hpp"; OB=I+"NLMPC/Objective.hpp"; MA=I+"NLMPC/Mapping.hpp"; MO=I+"NLMPC/Model.hpp"; BA=I+"NLMPC/Base.hpp"
notest="The linear controller is not even compiled by the tests that run here (they need OSQP), and upstream samples one or two plants"

p("C01","Linear MPC: equality constraints encode exactly the prediction dynamics",
 "For every model, disturbance model, measured disturbance, current state and last input, the equality rows of the quadratic program handed to the solver hold exactly when the predicted trajectory starts from the given state and last input, each next state is A x + B u + Bd d with the d given for that step, and each next input is the previous one plus its increment. No other equality is imposed and none is missing.",
 ["inputs","configurations"],"all model and disturbance matrices, all initial states, last inputs and disturbance profiles, static and dynamic sizes, every prediction horizon step",
 notest+" and compare one solved command, which most coefficient errors leave within tolerance.",
 [PB,LO,LM],[("ssA/ssB/ssBv assembled by setStateModel/setExogenousInput",PB),("Aeq in the time-invariant terms, leq in get()",PB)],["the (A,l,u) rows passed to osqp_setup"])
p("C02","Linear MPC: quadratic cost is the weighted tracking cost",
 "For every weight, reference and disturbance profile, the quadratic cost handed to the solver equals, up to a constant, half the sum over the horizon of the weighted squared output error, input error and input-increment error, each taken with the weight and reference given for that very step, outputs including the direct disturbance term. Weights and references of one step never leak into another.",
 ["inputs","configurations"],"all weights, references, disturbance feed-through and models, every step of the horizon, static and dynamic sizes",
 notest+" with constant weights and references, so a per-step mix-up is invisible.",
 [PB,LO,LM],[("P assembled in the time-invariant terms; q in get()",PB),("reference and weight setters",LO)],["P and q passed to osqp_setup"])
p("C03","Linear MPC: bounds reach exactly the steps and variables they were set for",
 "State, input and output bounds and the scalar constraint restrict exactly the predicted quantity and the horizon steps they were given for, outputs corrected by the direct disturbance term, and everything not set stays unbounded; an input bound given for a step limits the input applied at that step, and the last one given covers the steps after the control horizon. Input increments are forced to zero from the end of the control horizon on and are free before it.",
 ["inputs","configurations"],"all bound values, every slice and step, control horizons shorter than or equal to the prediction horizon, static and dynamic sizes",
 notest+" with constant bounds over the whole horizon and control horizon equal to the prediction horizon.",
 [PB,LM],[("setStateBounds/setInputBounds/setOutputBounds/setScalarConstraint",PB),("lineq/uineq, Aineq",PB)],["the (A,l,u) rows passed to osqp_setup"])
p("C04","Linear MPC: configuration is last-write-wins and independent of call order",
 "The problem handed to the solver depends only on the last value given to each configurable quantity: setting different quantities in any order, setting one twice, or solving in between, gives the same problem as setting only the final values once. Setting one quantity never changes another.",
 ["histories","inputs"],"orderings and repetitions of the configuration calls, interleaved with solves, with arbitrary values",
 "Tests configure each controller once, in one order, before the first solve.",
 [PB,LO,LM],[("rebuild of the time-invariant terms at each setter",PB)],["P,q,A,l,u passed to osqp_setup"])
p("C05","Linear MPC: the sparse data given to the solver is well formed and complete",
 "The sparse matrices handed to the QP solver represent the whole assembled problem: column pointers start at zero, never decrease and end at the number of stored entries, row indices are in range and strictly increasing within each column, the cost matrix holds its upper triangle only, and every non-zero coefficient is present with its value. The problem's declared sizes match the vectors and matrices given.",
 ["inputs","configurations"],"all coefficient values, patterns of zeros and dimensions",
 "Tests see only solved commands on one sparsity pattern; the solver reads the arrays without checking them.",
 [LO,PB],[("dense to sparse conversion and CSC copy",LO)],["OSQPData passed to osqp_setup"])
p("C06","Solver parameters reach the solver as given, the latest call winning",
 "Every parameter the user sets for either controller is the value in force in the solver at the next solve, whatever was set before: a later call replaces all earlier values, including restoring 'no time limit' and releasing the slack when hard constraints are switched off.",
 ["histories","inputs"],"all parameter values, sequences of parameter calls, both controllers",
 "Tests set parameters once per controller and never read back what the solver uses.",
 [LO,NO,LM,NM],[("setParameters and the settings block in run()",LO),("setParameters",NO)],["OSQPSettings passed to osqp_setup","nlopt_set_* calls in force at nlopt_optimize"])
p("C07","Linear MPC: result and sequences are read from the solver's solution correctly",
 "After a solve that yields a solution, the command is the first input of the predicted input sequence, the state sequence is the solver's predicted states step by step, each output row is C x plus the direct disturbance term of its step, and cost and solver status are those reported by the solver. The same holds for the values later read back through the last-result and optimal-sequence accessors.",
 ["inputs","configurations"],"every solver solution vector, model, disturbance and dimension",
 notest+" and check the command alone.",
 [LO,IM,PB],[("extraction loop in run()",LO),("mapToOutput",PB)],["Result and OptSequence returned by the controller"])
p("C08","Linear MPC: a solver that gives no solution is reported and never moves the plant",
 "If the QP solver cannot be set up, fails, or ends with a status that carries no solution, the returned command is the one of the previous result, the sequences are zero, the result is not feasible and its status is not success, and the program does not read solver memory that is not there. Nothing from the failed solve is kept for warm-starting the next one.",
 ["fault_sequences","histories"],"failures at set-up and at solve, every no-solution status, at the first or a later solve",
 "Tests never make the solver fail.",
 [LO],[("exit flags of the solver calls, no-solution branch of run()",LO)],["Result returned by optimize()","vectors passed to osqp_warm_start"])
p("C09","Result status and feasibility tell the truth about every solver outcome",
 "For every outcome code of the underlying solvers the reported status is the documented one: success only when a solution was found, maximum-iteration when a time or iteration limit stopped it, infeasible for (accurate or inaccurate) infeasibility, error for solver errors, unknown otherwise. The linear result is flagged feasible only for outcomes that carry a usable iterate; the solver's own code is passed on unchanged.",
 ["fault_sequences","inputs"],"every outcome code of OSQP and NLopt, including codes not known to the library",
 "Tests reach one or two of some twenty outcome codes.",
 [LO,NO],[("convertToResultStatus",LO),("convertToResultStatus",NO)],["Result.status, Result.is_feasible, Result.solver_status"])
p("C10","Solver resources are released exactly once on every path",
 "Everything a controller allocates or obtains from a solver is released exactly once by the time the controller is destroyed, over any sequence of construction, configuration, successful and failed solves and destruction, and nothing is used after its release. In particular a controller that never solved can be destroyed.",
 ["histories","fault_sequences"],"all sequences of constructions, solves (good and failing) and destructions of both controllers",
 "Leaks and stale releases do not change results, and the tests neither destroy in odd states nor fail a solve.",
 [LO,LM,NO,NM,IM],[("clearData/initData and destructors",LO),("innerOpt ownership",NO),("optPtr ownership",NM)],["allocation/release calls of the library and solvers"])
p("C11","Linear MPC: warm start uses the last or given iterate only when enabled",
 "With warm start enabled, a solve starts from the last primal and dual solution, or from the one the user supplied since; without it the solve does not depend on any earlier solve. The iterates read back are those of the last solve that produced a solution.",
 ["histories"],"sequences of solves, user-supplied iterates and parameter changes",
 "Results agree with and without warm start, so tests cannot see it.",
 [LO,LM],[("warm-start block of run(); setSolverWarmStart",LO)],["osqp_warm_start / osqp_update_warm_start calls"])
p("C12","Nonlinear MPC: user functions see the trajectory the decision vector denotes",
 "Whenever the solver evaluates a decision vector, the objective and constraint functions receive the trajectory it denotes: the first state row is the current measured state, the next rows the decision states, each input row the decision input of its control step with the last one held over the rest of the horizon and repeated in the final row, outputs computed by the output function row by row (zero without one), and the slack. The value the user function returns is passed to the solver unchanged.",
 ["inputs","configurations"],"all decision vectors, states, horizons with control horizon up to the prediction horizon, user functions, static and dynamic sizes",
 "Tests run a handful of plants and look at the converged command.",
 [MA,OB,CO,MO,NO],[("unwrapVector and move-blocking matrices",MA),("getOutput",MO)],["arguments of the user callbacks and values returned to NLopt"])
p("C13","Nonlinear MPC: objective gradient is the derivative of the user objective",
 "The gradient given to the solver is, in every component, the derivative of the objective value with respect to that decision variable up to finite-difference accuracy, including outputs, held inputs, the final row and the slack; evaluating it leaves no trace on the value or on later evaluations.",
 ["inputs","configurations"],"all decision vectors, differentiable objectives, horizons and sizes",
 "Tests compare gradients on one or two small cases; a wrong component still lets the solver converge nearby.",
 [OB,MA,NO],[("computeJacobian",OB)],["grad written for NLopt's objective callback"])
p("C14","Nonlinear MPC: user constraint values and Jacobians are exact per decision variable",
 "For user inequality and equality constraints, the values given to the solver are those of the user function on the denoted trajectory, and each Jacobian entry is the derivative of that constraint with respect to that decision variable up to finite-difference accuracy, including held inputs, the final input row, outputs and the slack, laid out one constraint after another.",
 ["inputs","configurations"],"all decision vectors, differentiable constraint functions, horizons and sizes",
 "Tests use few constraints that do not touch most rows; a wrong entry shows only as slower or wrong convergence.",
 [CO,MA,NO],[("computeIneqJacobian/computeEqJacobian/glueJacobian",CO)],["result and grad written for NLopt's vector-constraint callbacks"])
p("C15","Nonlinear MPC: model constraint couples consecutive states by the user's dynamics",
 "The equality constraint given to the solver vanishes exactly when each predicted state follows from the previous one by the user's model, x+ = f(x,u) in discrete time and the trapezoidal rule with the set sampling time in continuous time, starting at the measured state and with the right step index; its Jacobian is the derivative of that residual with respect to every decision variable up to finite-difference accuracy.",
 ["inputs","configurations"],"all decision vectors, models, sampling times, horizons and sizes",
 "Tests check a few converged trajectories within tolerance.",
 [CO,MO,NO],[("getStateEqConstraints/computeStateEqJacobian",CO)],["result and grad of NLopt's state-equality callback"])
p("C16","Nonlinear MPC: bounds restrict exactly the steps and variables they were set for",
 "The lower and upper bounds the solver uses are, for each decision variable, the last ones the user set for that variable and step and infinite otherwise; setting state bounds never alters input bounds or the slack, a slice touches only its own steps, and every accepted call is in force at the solver at once.",
 ["inputs","histories"],"all bound values, slices and call sequences, static and dynamic sizes",
 "Tests set bounds on one slice and read back a copy, not what the solver has.",
 [NO,NM],[("setStateBounds/setInputBounds/updateBounds",NO)],["nlopt_set_lower_bounds/upper_bounds"])
p("C17","Nonlinear MPC: result, sequences and feasibility flag reflect the solver's answer",
 "After a successful solve the command is the first input denoted by the solver's answer, the state, input and output sequences are the denoted trajectory, cost and code are the solver's. The result is flagged feasible exactly when every user inequality is at most its tolerance and every user equality is within its tolerance at that answer, each against its own tolerance.",
 ["inputs","configurations"],"all solver answers, constraint values and tolerances, with and without user constraints",
 "Tests see answers where all constraints hold comfortably.",
 [NO,CO,MA],[("result block of run()",NO),("isFeasible",CO)],["Result and OptSequence"])
p("C18","Nonlinear MPC: a failed solve is contained and reported",
 "When the nonlinear solver fails in any way, no exception escapes, the returned command is that of the previous result, the cost is infinite, the sequences are zero, and the result is an error and not feasible. The next solve works as if the failed one had not happened.",
 ["fault_sequences","histories"],"every failure the solver can report, at first or later solves",
 "Tests do not provoke solver failures.",
 [NO],[("try/catch and failure branch of run()",NO)],["Result, OptSequence, behaviour of the next solve"])
p("C19","Nonlinear MPC: initial guess is memoryless when cold, the shifted solution when warm",
 "Without warm start the guess given to the solver depends only on the current state and last input, not on earlier solves. With warm start it is the previous solution advanced by one step, the final step repeated, and the first solve falls back to the cold guess. The guess is projected onto the bounds in force.",
 ["histories","inputs"],"all sequences of solves with any previous answers, both modes, all horizons",
 "Tests never look at the guess, and both modes converge to the same answer.",
 [NO,MA],[("initial guess block of run()",NO)],["x passed to nlopt_optimize"])
p("C20","Controllers act on a setter exactly when they report success",
 "When a configuration call reports success the setting is in force at the solver with the given values and tolerance; when it cannot be applied the call reports failure. Setting the objective, model or a constraint function again replaces the earlier one instead of adding to it.",
 ["histories","fault_sequences"],"all sequences of configuration calls, including ones the solver refuses",
 "Tests set everything once and the solver never refuses.",
 [NM,NO,CO,LM],[("bind* calls and their results",NM)],["return values of the setters against the NLopt registrations in force"])
p("C21","Scaling changes the solver's coordinates, never the physical problem",
 "With input or state scaling set, the trajectory seen by user functions, the model constraint, the bounds, the initial guess and the result are all in physical units and denote the same optimal control problem as without scaling; gradients are taken with respect to the scaled variables.",
 ["inputs","configurations","histories"],"all positive scalings, set before or after the other settings",
 "Tests only use scaling in a unit test of the mapping.",
 [MA,OB,CO,NO,NM],[("setInputScaling/setStateScaling, chain-rule factors",MA)],["user callback arguments, gradients, bounds and guess at NLopt, Result"])
p("C22","Horizon slices are accepted exactly when they lie inside the horizon",
 "A horizon slice is accepted exactly when it is the 'whole horizon' marker or denotes a non-empty range of steps inside the horizon that applies to the quantity being set; every other slice is rejected without changing anything. An accepted slice applies to each step from its start up to but not including its end.",
 ["inputs"],"all start and end values, all horizons, every setter taking a slice, both controllers",
 "Tests try half a dozen slices on one horizon.",
 [IM,LM,NM,NO],[("isPredictionHorizonSliceValid/isControlHorizonSliceValid/isSliceUnset",IM)],["return values and resulting problem"])
p("C23","Whole public interface compiles and agrees for static and dynamic sizes",
 "Every public operation of both controllers can be used with compile-time and with run-time dimensions, and both give the same problem to the solver and the same results for the same dimensions. Each public header can be included on its own.",
 ["configurations","programs"],"every public member function, every combination of dimensions, static or dynamic",
 "Templates that no test instantiates are never compiled; several members have no test at all.",
 [LM,NM,IM,I+"Types.hpp",I+"Dim.hpp",I+"Profiler.hpp",I+"Utils.hpp",I+"Integrator.hpp"],[("class templates and COND_RESIZE macros",I+"Types.hpp")],["compilation; solver-boundary data"])
p("C24","No read of uninitialised memory and no access outside any object",
 "No sequence of legal calls makes the library read a value that was never written, touch memory outside an object or after its release, divide sizes wrongly so that an internal size assertion fires, or terminate the process.",
 ["inputs","histories","configurations"],"all values, all legal call sequences on both controllers and utilities, sizes including a single state, input or step and empty constraint sets",
 "Tests run without sanitizers and mostly uninitialised values happen to be zero or unused.",
 [LO,PB,NO,CO,OB,MA,I+"Logger.hpp",I+"IOptimizer.hpp"],[("onInit and constructors",LO)],["every load, store and branch"])
p("C25","Controllers are independent of each other",
 "Using one controller never changes the problem, parameters, results or statistics of another one in the same process; the only state they share is the logger. A controller cannot be copied into a second owner of the same solver.",
 ["histories","programs"],"any interleaving of operations on any number of controllers",
 "Tests use one controller at a time.",
 [LM,NM,NO,LO,OB,CO,MA],[("absence of static mutable state; ownership",IM)],["solver-boundary data of one controller while another is used; type properties"])
p("C26","Execution statistics are the statistics of the recorded solves",
 "After any number of solves the reported minimum, maximum, total, average and (population) standard deviation are those of the recorded solve times, the counts per status are the number of solves that ended so, and the count is the number of solves; resetting makes them start over.",
 ["inputs","histories"],"all sequences of durations and statuses, with resets in between",
 "Tests use three nearly equal durations with a loose tolerance.",
 [I+"Profiler.hpp",IM],[("addSolutionTime",I+"Profiler.hpp")],["getStats()/getExecutionStats()"])
p("C27","Logger emits exactly the messages at or above its threshold, to its one stream",
 "A message of a given type is written, with its prefix, exactly when its type reaches the current threshold and never otherwise, to the stream last set and to no other; nothing in the library writes to any output except through the logger. Resetting restores default level and empty prefix, and changing the configuration affects later messages only.",
 ["histories","configurations"],"all levels, types, prefixes, streams and sequences of changes",
 "Tests check single messages.",
 [I+"Logger.hpp",IM],[("log() and operator<<",I+"Logger.hpp")],["writes to the stream"])
p("C28","Compile-time size arithmetic is exact and dynamic sizes stay dynamic",
 "Adding, subtracting and multiplying compile-time sizes and integers gives the arithmetic result when all operands are known and 'dynamic' as soon as one operand is dynamic, whichever operand comes first.",
 ["inputs"],"all operand values and both operand orders",
 "Tests evaluate a few operand pairs and not the reversed forms.",
 [I+"Dim.hpp",I+"Types.hpp"],[("Size operators",I+"Dim.hpp")],["constant expressions"])
p("C29","Integration and discretization helpers compute the documented scheme",
 "The Runge-Kutta helper applies the classical fourth-order scheme for the requested number of steps, each evaluated at its own time, and the discretization helpers return the blocks of the matrix exponential of the augmented system times the sampling time, with output and feed-through matrices passed on, for every combination of sizes.",
 ["inputs","configurations"],"all vector fields, step sizes, step counts and matrix sizes",
 "Tests integrate one system for one step and use square sizes.",
 [I+"Integrator.hpp",I+"Utils.hpp"],[("run",I+"Integrator.hpp"),("discretization",I+"Utils.hpp")],["returned vectors and matrices"])
p("C30","Unset callbacks are never invoked and outputs default to zero",
 "User functions are invoked only if they were set: without an output function outputs are zero, without user constraints none are evaluated or registered, and feasibility then imposes nothing. The function invoked is always the one set last.",
 ["histories","configurations"],"all subsets and orders of the functions being set, with solves in between",
 "Tests set all functions an example needs, in the usual order.",
 [MO,CO,OB,NM],[("hasOutputModel/hasIneqConstraints/hasEqConstraints guards",CO)],["callback invocations"])
p("C31","Python bindings expose each operation with the matching signature",
 "Every binding refers to an existing operation with the signature it is exported under, so the extension module compiles against the current interface and no exported overload is unreachable behind an identical one. The setters, the solve and the accessors of results and sequences of both controllers stay exported, and each acts as the operation it is named after.",
 ["programs"],"every exported member",
 "The bindings are not built by the tests.",
 ["python/pybind_export.cpp"],[("module definition","python/pybind_export.cpp")],["compilation of the module"])
p("C32","Controllers share no data with their caller, and reading results has no effect",
 "A controller keeps its own copy of everything it is given: matrices, vectors, slices, parameters, function objects and iterates may be changed, reused or destroyed as soon as the call returns. Results, sequences and iterates handed out are snapshots: a later solve does not change them, and changing them does not change the controller. Reading results, sequences, iterates or statistics, however often and whenever, including before the first solve, changes no later problem, result or statistic.",
 ["histories","inputs"],"all values, all setters, reads between any two calls, static and dynamic sizes",
 "Tests pass temporaries or variables they never touch again, read each result once and never modify what they were handed.",
 [LM,NM,IM,LO,NO,PB],[("setters copying into the builder and optimizer",LM),("accessors returning by value",IM)],["the problem and functions at the solver after the caller changed its variables","values handed out earlier"])
p("C40","Solver optimality, convergence and timing",
 "The command returned is the optimum of the stated problem within the solver tolerances, and solves respect the requested time limit.",
 ["inputs","schedules"],"all problems",
 "Tests sample a few problems.",
 [LO,NO],[("calls into OSQP/NLopt",LO)])
p("C41","Numerical accuracy of finite differences and matrix exponential",
 "Finite-difference derivatives and matrix exponentials are accurate to a stated bound in floating point for every argument.",
 ["inputs"],"all floating-point arguments",
 "Tests sample a few arguments.",
 [OB,CO,I+"Utils.hpp"],[("finite differences",CO)])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
