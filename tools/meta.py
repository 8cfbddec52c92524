#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/mpc/"
NL, NO, NC, NB, NM, NMO = I+"NLMPC.hpp", I+"NLMPC/NLOptimizer.hpp", I+"NLMPC/Constraints.hpp", I+"NLMPC/Objective.hpp", I+"NLMPC/Mapping.hpp", I+"NLMPC/Model.hpp"
LM, LO, LB = I+"LMPC.hpp", I+"LMPC/LOptimizer.hpp", I+"LMPC/ProblemBuilder.hpp"
IM, TY = I+"IMPC.hpp", I+"Types.hpp"
PY = "python/pybind_export.cpp"

def P(id, title, statement, over, q, why, files, mech, level_note, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, level_note=level_note, observe=observe)

PROPS = [
 P("N01", "Non-linear MPC: decision vector maps to the physical trajectories",
   "For every problem size and every state and input scale, the trajectories seen by the user's functions are: first row the initial state as given, then the decision states multiplied by the state scale; inputs multiplied by the input scale, one per control-horizon step, the last one held to the end of the prediction horizon and repeated on the final row; slack unchanged. The last scale set wins, and the inverse input map recovers the free moves.",
   ["inputs", "configurations"], "all sizes, horizons, positive scales, decision vectors and sequences of scale changes",
   "tests check a handful of unscaled vectors with one horizon; a wrong row, a wrong hold or a scale applied to the wrong block only shows for particular size and scale combinations",
   [NM], [("decision vector unpacking", NM+": Mapping::unwrapVector"), ("input hold map", NM+": Mapping::computeMapping")],
   "random sizes/scales/vectors against a three-line reference reading of the vector"),
 P("N02", "Non-linear MPC: objective value and gradient are those of the user's cost",
   "For every smooth user cost over states, outputs, inputs and slack, the value handed to the solver is the cost on the physical trajectories (outputs included), and the gradient is its derivative with respect to every scaled decision variable, to finite-difference accuracy, whatever the sizes of the other variables, the scales, the hold of the last input, and the slack value.",
   ["inputs", "configurations"], "all smooth costs, sizes, scales, magnitudes and evaluation histories",
   "a gradient that is wrong for one block or magnitude still lets sampled problems converge; only comparison with an exact derivative over many shapes shows it",
   [NB, NMO], [("cost evaluation and numeric gradient", NB+": Objective::evaluate, computeJacobian"), ("outputs along the horizon", NMO+": Model::getOutput")],
   "random polynomial/trigonometric costs; exact forward-mode derivatives as oracle"),
 P("N03", "Non-linear MPC: user constraint values, gradients and feasibility test",
   "For every smooth user inequality and equality constraint the values handed to the solver are the user's on the physical trajectories, and the gradients are their derivatives with respect to every scaled decision variable (held last input and slack included). The feasibility flag is true exactly when all user inequalities are at most, and all user equalities within, their tolerances; a constraint that was not set counts as satisfied and zero.",
   ["inputs", "configurations"], "all smooth constraints, counts, sizes, scales, magnitudes and tolerances",
   "tests evaluate one or two fixed constraint sets whose gradients are constant; block placement, hold and step-size errors need many shapes",
   [NC], [("inequalities and their gradient", NC+": evaluateIneq, computeIneqJacobian"), ("equalities and their gradient", NC+": evaluateEq, computeEqJacobian"), ("feasibility", NC+": isFeasible")],
   "random constraints; exact forward-mode derivatives and direct tolerance test as oracle"),
 P("N04", "Non-linear MPC: the dynamics constraint is the user's model",
   "The dynamics constraint is zero exactly on trajectories of the user's model started at the given initial state: the discrete map step by step, or, for a continuous model with sampling time, the trapezoidal rule with the input held over the step; the model receives the step index. Its gradient is the exact derivative with respect to every scaled decision variable, to finite-difference accuracy.",
   ["inputs", "configurations"], "all smooth models (state, input and step dependent), both time domains, sizes, scales and sampling times",
   "tests use a time-invariant integrator and one oscillator without scaling; wrong step pairing or index only shows for step-dependent or coupled models",
   [NC], [("dynamics residual and gradient", NC+": evaluateStateModelEq, getStateEqConstraints, computeStateEqJacobian, glueJacobian")],
   "random models; residual and exact derivative reference, plus simulated trajectories that must be feasible"),
 P("N05", "Non-linear MPC: bounds are last-write-wins over valid slices and are respected",
   "After any sequence of state and input bound settings (whole matrix, vector over a slice, vector over everything), the limit in force at each horizon step is the most recent one that covered it, unset steps are unlimited, a slice is accepted exactly when it lies inside the horizon, and a rejected or unsupported (output) setting changes nothing. No predicted state (steps 1..N) or input of a successful solution, in physical units, violates its limit, also with scaling and when the initial guess lies outside.",
   ["histories", "inputs", "configurations"], "all sequences of bound settings, slices (valid and invalid), scales, initial states and last inputs",
   "tests set one or two bounds and look at the stored vectors; overlapping slices, rejected slices and their effect on the solution are combinatorial",
   [NO, NL, IM], [("bound storage", NO+": setStateBounds, setInputBounds, updateBounds"), ("slice validation", IM+": isPredictionHorizonSliceValid, isControlHorizonSliceValid"), ("initial guess", NO+": run")],
   "stateful generation against an array model; solutions checked against the model"),
 P("N06", "Non-linear MPC: result and predicted sequence describe one consistent solution",
   "After every successful optimisation the sequence has horizon+1 rows, starts at the given initial state, holds the input after the control horizon, its outputs are the output function on its rows, the command equals its first input, the reported cost is the user's cost of the sequence, status follows the solver code, the feasibility flag matches the user constraints on the sequence, and on convergence the sequence follows the model. When the solver gives up, the result is an error with code -1, infinite cost, zero sequences and the last successful command. The last-result query returns the same result.",
   ["inputs", "histories", "configurations"], "all problems, sequences of initial states and last inputs, scales, warm start on or off",
   "tests look at the first command of one closed loop; a mismatch between the returned pieces needs comparison on arbitrary problems and repeated calls",
   [NO, IM], [("result assembly", NO+": run, convertToResultStatus"), ("query", IM+": getOptimalSequence, getLastResult")],
   "random solvable problems, several calls per controller, everything recomputed from the returned sequence"),
 P("N07", "Non-linear MPC: a failed run keeps the last command and recovers",
   "Whenever a user callback fails at any point of an optimisation, the call still returns: status error, solver code -1, infinite cost, not feasible, all predicted sequences zero, and the command of the most recent successful optimisation (zero if none). When a callback returns values that are not numbers, or the measured state is not a number, the command and the predicted sequences returned are numbers nevertheless. The next optimisation with healthy callbacks gives the same result as if the failure had not happened.",
   ["fault_sequences", "histories"], "all callbacks, positions of the failing call and interleavings of failing and healthy optimisations",
   "tests never make a callback fail; the position of the fault and the history before it decide which state leaks",
   [NO], [("failure path", NO+": run (exception handling, result assembly)")],
   "fault injection at the k-th callback call inside random histories, against a model of the expected result and a fault-free twin"),
 P("N08", "Non-linear MPC: convex problems are solved to the optimum",
   "For linear dynamics, a strictly convex quadratic cost, input and state bounds and affine user constraints (hard, or softened by the slack), a converged optimisation returns the unique optimal command, trajectory and cost of the documented problem, within tolerance, independently of the initial guess, of state and input scaling, and of warm start. Problems that are always feasible (input bounds only) are solved when stopping tolerances are set, apart from isolated round-off failures.",
   ["inputs", "configurations"], "all controllable sizes, weights, references, bounds, scales and initial states",
   "tests compare two hand-picked systems with recorded numbers; optimality for arbitrary data needs an independent solver",
   [NO, NB, NC, NM], [("solver set-up", NO+": bindObjective, bindEq, run"), ("whole formulation", NL)],
   "condensed dense QP with an independent interior-point solver as reference"),
 P("N09", "Compile-time-sized and run-time-sized controllers behave identically",
   "A non-linear controller built with sizes as template arguments and one built with the same sizes at run time give the same return values, results, sequences and statistics counts for the same sequence of calls; every public operation works in both modes.",
   ["programs", "configurations"], "all call sequences on both variants over a set of sizes",
   "the test-suite compiles one variant at a time and never compares them",
   [NL, TY, I+"Dim.hpp", I+"IDimensionable.hpp"], [("size plumbing", TY+": COND_RESIZE_MAT; "+I+"Dim.hpp: Size")],
   "the same random operation sequence driven through both variants, outcomes compared bit for bit"),
 P("N10", "Controllers are independent, repeatable and unaffected by logging",
   "The outcome of an operation sequence on a non-linear controller does not depend on other controllers created, used or destroyed in between (or from within its own user functions) or operated at the same time by other threads, on the logging level, or on which instance runs it; and without warm start each optimisation depends only on the current configuration and its arguments, not on earlier optimisations.",
   ["histories", "programs"], "all interleavings of operations on several controllers, with and without logging",
   "one test builds two controllers once; leaks between instances or calls need interleavings",
   [NL, NO, NC, NB, I+"Logger.hpp"], [("per-instance modules", NL+": buildInternalModules, onSetup"), ("per-call state", NO+": run")],
   "interleaved runs compared bit for bit with isolated runs"),
 P("N11", "Non-linear MPC: redefining a function replaces it",
   "After any order of (re)definitions of model, output, objective, user constraints, tolerances, scales, sampling time and parameters, with or without optimisations in between and without warm start, each one reports success (a tolerance or a number of equalities that the solver cannot take is reported as a failure and changes nothing) and the controller behaves as a fresh one configured once with the most recent definitions: no earlier function is ever called again and each is enforced exactly once.",
   ["histories"], "all sequences of redefinitions and optimisations",
   "tests define everything exactly once",
   [NL, NO, NC], [("binding", NL+": setStateSpaceFunction, setIneqConFunction, setEqConFunction, setObjectiveFunction"), ("solver constraints", NO+": bindEq, bindUserIneq, bindUserEq")],
   "random redefinition histories against a freshly configured twin"),
 P("N12", "Non-linear MPC: solver parameters are honoured, last setting wins",
   "The most recent parameter set and the tolerances given with the model and the user constraints govern each optimisation and reach the solver as given: the number of cost evaluations never exceeds the evaluation limit and reaching it is reported as the iteration-limit status, a zero time limit means none and a positive one is enforced, a disabled tolerance is off, hard constraints force a zero slack and soft constraints let the slack move.",
   ["histories", "configurations"], "all sequences of parameter settings and optimisations",
   "tests read back nothing after setting parameters; a parameter that sticks or is dropped needs a sequence",
   [NO, TY], [("parameters", NO+": setParameters")],
   "random parameter histories; callback counting and slack-observing costs as oracle"),
 P("N13", "Non-linear MPC: warm start changes only the starting point",
   "With warm start enabled the solver starts from the previous solution moved one step ahead (last step repeated), with warm start disabled or before the first success from the current state and last command repeated over the horizon, always inside the bounds; the converged solution satisfies the same problem in both cases.",
   ["histories", "inputs"], "all sequences of optimisations, failures, warm-start switches and horizons",
   "the starting point is invisible in tests that only look at converged commands",
   [NO], [("initial guess", NO+": run"), ("hold map", NM+": Iz2u, Iu2z")],
   "first trajectory seen by the cost callback compared with a model of the starting point"),
 P("N14", "Non-linear MPC: callbacks receive well-formed, consistent arguments",
   "Every call of a user function gets matrices of the documented sizes with finite entries whenever the problem is feasible: states whose first row is the current initial state, inputs held after the control horizon up to one perturbed entry, outputs equal to the user's output function on the very states and inputs passed, step index 0..N-1 for the model and 0..N for the output, an output vector that is zero before the user's function fills it, and constraint vectors of the declared length.",
   ["inputs", "histories"], "all problems and all calls made during optimisation",
   "tests do not inspect the arguments of the thousands of internal calls",
   [NB, NC, NMO], [("callback sites", NB+": evaluate, computeJacobian; "+NC+": all callers; "+NMO+": getOutput")],
   "instrumented callbacks check each of their calls during optimisation of random problems"),
 P("L01", "Linear MPC: the quadratic program is the documented cost and model",
   "For every model, disturbance model, weights, references, measured disturbances, initial state and last command, the equality rows of the program are satisfied exactly by the trajectories of x(k+1)=Ax(k)+Bu(k)+Bd d(k) with u(k)=u(k-1)+du(k), with the input held from the end of the control horizon on, and its objective differs from half the documented sum of weighted squared output, input and input-rate errors only by a constant. Each step has its own weight, reference and disturbance: output k=1..N uses column k-1 of output data, input and rate k column k of input data, output k the disturbance d(k) (the last one held), and the first column also applies to the output at step 0.",
   ["inputs", "configurations"], "all system sizes, horizons, per-step weights, references and disturbances",
   "the linear part is not compiled by the stock build; its own tests compare one LTI example with constant data",
   [LB, LO], [("cost", LB+": setObjective, buildTimeInvariantTems, get"), ("dynamics", LB+": setStateModel, setExogenousInput, get")],
   "simulated random trajectories plugged into the generated matrices; a stand-in for the absent OSQP records them"),
 P("L02", "Linear MPC: the program's inequalities are exactly the user's limits",
   "A trajectory of the model is feasible for the program exactly when every state, output, input and scalar-constraint limit set by the user holds at its own step, unset limits being infinite, and the input is constant from the end of the control horizon on. Column i of state, output and scalar limits covers step i+1, the first one also step 0; column i of input limits covers u(i), the first one also the last command, the last one every later input; the scalar constraint at step k combines x(k) with u(k), the last input held, with the multipliers given with that step's limits.",
   ["inputs", "configurations"], "all limits per step, infinite or finite, all horizons with control horizon not longer than prediction horizon",
   "existing tests use constant limits and equal horizons, which hide index shifts",
   [LB], [("bounds", LB+": setStateBounds, setInputBounds, setOutputBounds, setScalarConstraint, get"), ("control horizon", LB+": buildTimeInvariantTems")],
   "random trajectories classified by a direct check of the limits and by the program; both verdicts must agree"),
 P("L03", "Linear MPC: setters are last-write-wins over valid slices",
   "After any sequence of settings of weights, bounds, scalar constraint, references and measured disturbances, given as matrices, as a vector over a slice or over everything, each horizon step uses the most recent value that covered it; setting a slice, its steps one by one, or the equivalent matrix gives the same program; a slice is accepted exactly when it lies inside the corresponding horizon; a rejected or unsupported setting (scale, sampling time) changes nothing.",
   ["histories", "configurations"], "all sequences of setter calls including invalid slices and indices",
   "tests make one call per setter; overlap, order and rejection are combinatorial",
   [LM, LB, IM], [("slices", LM+": all slice overloads; "+IM+": slice validation"), ("storage", LB+": per-index setters")],
   "stateful generation against a per-step model, compared through the program received by the solver stand-in"),
 P("L04", "Linear MPC: the solver outcome is translated faithfully",
   "Whatever the solver returns, the result carries its status code and cost, the documented status (solved, limit reached, infeasible, error, unknown), and a feasibility flag that is never set for an infeasible outcome; with a solution the command and the state, input and output sequences are the solver's own values in physical meaning; without one (also when the solver's values are not numbers) the previous command is kept, the result is not feasible, the cost is infinite and the sequences are zero, and the next good solve works normally.",
   ["fault_sequences", "histories"], "all solver statuses and sequences of outcomes, including missing or non-numeric solutions",
   "needs a solver that can be made to fail at will",
   [LO], [("outcome handling", LO+": run, convertToResultStatus")],
   "scripted solver stand-in with random outcome histories against a model of the result"),
 P("L05", "Linear MPC: closed optimisation returns the optimum of the documented problem",
   "With an exact solver the command and sequences returned for a feasible strictly convex problem satisfy every user limit, follow the model, and no other admissible trajectory has a lower documented cost.",
   ["inputs", "configurations"], "all feasible strictly convex problems over generated sizes and data",
   "two recorded closed loops cannot show optimality for arbitrary data",
   [LM, LO, LB], [("whole pipeline", LM+": optimize")],
   "stand-in solver that solves the received program exactly; result compared with an independently derived condensed problem"),
 P("L06", "Linear MPC: parameters, warm start and solver lifetime",
   "Each optimisation passes the most recent parameters to a freshly set-up solver, warm starts it exactly when enabled and a previous (or user supplied) primal/dual pair exists, with that pair, stores the new pair after a solution (never one that is not a number), and releases everything it allocated exactly once, also over controller destruction and copies of call sequences with failures.",
   ["histories", "fault_sequences"], "all sequences of parameter changes, warm-start settings, optimisations, failures and destruction",
   "allocation and warm-start protocol are invisible to result-based tests",
   [LO, LM], [("solver protocol", LO+": run, initData, clearData"), ("warm start access", LM+": setSolverWarmStart, getSolverWarmStartPrimal")],
   "stand-in solver that records settings, warm starts and every allocation; model of the protocol; address sanitizer"),
 P("L07", "Linear MPC: instances are independent and sizing modes agree",
   "For the same call sequence a compile-time-sized and a run-time-sized linear controller hand identical programs to the solver and return identical results, and the outcome does not depend on other controllers used in between, while another one is inside the solver or at the same time in other threads, on logging, or on earlier optimisations (warm start off).",
   ["programs", "histories"], "all interleavings and both sizing modes",
   "stock tests use one instance and one sizing mode per binary",
   [LM, LB, LO], [("per-instance state", LM+": builder, optPtr")],
   "the same random operations through both variants and interleaved with a second controller, compared bit for bit"),
 P("L08", "Linear MPC: the closed loop is recursively feasible and its cost decreases",
   "With an exact solver, a linear controller whose horizon ends in the origin and whose limits do not change, fed with the state of a plant equal to its model, stays feasible from step to step; each optimal cost is at most the previous one minus the cost of the step just made, and the plant reaches the state that was predicted for it.",
   ["histories"], "all closed loops of admissible problems over generated models, weights and limits",
   "guarantee over histories of optimisations; tests run two recorded loops",
   [LM, LO, LB], [("receding horizon", LM+": optimize; "+LB+": get")],
   "closed loops with the exact stand-in solver; the shifted previous prediction is the certificate for feasibility and cost"),
 P("U01", "Execution statistics describe the recorded optimisations",
   "After any sequence of optimisations and resets, the statistics give the number of optimisations since the last reset, their count per status, and the minimum, maximum, total, mean and standard deviation of their durations; the printed report shows the same numbers.",
   ["histories"], "all sequences of durations, statuses and resets",
   "tests record three sleeps; running-average errors grow with the sequence",
   [I+"Profiler.hpp", IM], [("running statistics", I+"Profiler.hpp: Profiler::addSolutionTime, solutionEnd")],
   "virtual clock; exact recomputation from the recorded durations"),
 P("U02", "The log shows exactly the messages at or above the level",
   "For any sequence of level, prefix, stream and reset changes and messages, the stream receives exactly the messages whose type is at or above the current level, in order, each starting with the prefix (the default one when empty), and nothing goes to a stream that was replaced; messages never change results.",
   ["histories"], "all sequences of logger operations",
   "tests write one message per configuration",
   [I+"Logger.hpp"], [("filter and prefix", I+"Logger.hpp: log, operator<<, setLevel, setPrefix, setStream, reset")],
   "random operation sequences against a string model"),
 P("U03", "The Runge-Kutta integrator is the classical fourth-order method",
   "For every vector field, start time, state, step and step count the integrator returns the classical RK4 iterate, evaluating the field at the right intermediate times of each step; it is exact for polynomial right-hand sides in time up to third degree, and n steps equal n single steps chained.",
   ["inputs"], "all vector fields (time and state dependent), steps and step counts",
   "the closed-loop tests integrate an autonomous system with one step",
   [I+"Integrator.hpp"], [("integration loop", I+"Integrator.hpp: RK4::run")],
   "independent RK4 reference, polynomial exactness and chaining relations"),
 P("U04", "Discretisation gives the zero-order-hold equivalent",
   "For every linear continuous model and sampling time each discretisation overload returns the exact zero-order-hold state, input and disturbance matrices, so that sampling twice equals sampling at the doubled time, zero sampling time gives identity and zero, and output matrices pass through unchanged.",
   ["inputs"], "all sizes, stable, unstable and singular systems, and sampling times",
   "two fixed systems are compared with recorded digits",
   [I+"Utils.hpp"], [("matrix exponential blocks", I+"Utils.hpp: discretization overloads")],
   "scaled Taylor series in extended precision, semigroup relation"),
 P("U05", "Size arithmetic propagates run-time sizes and computes exactly",
   "Adding, subtracting and multiplying sizes and integers in any order gives the arithmetic result when both operands are known at compile time, and the run-time marker as soon as one is not.",
   ["inputs"], "all operator forms, operand orders and expressions",
   "only the combinations used in the headers are exercised, with commutative operators",
   [I+"Dim.hpp"], [("operators", I+"Dim.hpp: Size operators"), ("marker", TY+": make_dimension")],
   "random expressions against integer arithmetic with an explicit unknown"),
 P("U06", "The log describes each optimisation truthfully and never changes it",
   "Whatever the logging level, prefix and stream, set globally or through the controller, every optimisation of a linear or non-linear controller returns the same result, predictions and solver program as with logging off, including when a user function fails or the solver finds no solution. At the levels that include information each optimisation writes exactly one summary, whose duration, status, solver code, feasibility, message and cost are those of the recorded and returned result; above that level there is no summary, an undisturbed optimisation writes nothing, and a silenced log stays empty. Every message carries the current prefix.",
   ["histories", "configurations"], "all problems, outcomes, levels, prefixes and sequences of them",
   "tests never read the log of a controller, nor compare results across levels; the code that formats internal data runs only at the deepest level",
   [IM, NO, NC, LO], [("step summary", IM+": optimize"), ("level and prefix", IM+": setLoggerLevel, setLoggerPrefix"), ("diagnostics", NO+", "+NC+", "+LO+": messages of type DETAIL")],
   "differential: a silent and a logging controller run the same history; the summary is parsed and compared with the returned result, under a virtual clock"),
 P("S01", "Every sequence of operations is memory-safe and returns what it allocated",
   "No sequence of public operations on controllers, their components and the utilities, with failing user functions, rejected settings, failing solver outcomes, any logging level and either sizing mode, reads or writes memory it does not own, uses an object after its end, or has undefined behaviour. After a controller is destroyed no memory it allocated is left, and the results taken from it stay valid.",
   ["histories", "fault_sequences", "programs"], "all legal sequences of operations, including failures and destruction",
   "tests run without sanitizers and never look at the heap; stray accesses and leaks do not change the sampled results",
   [NO, NC, NB, LO, LM, NL, I+"Logger.hpp", I+"Profiler.hpp"], [("raw copies to the solver", NO+": nlopt*FunWrapper; "+LO+": initData"), ("ownership", NL+": buildInternalModules, ~NLMPC; "+LO+": clearData")],
   "random operation sequences under the address and undefined-behaviour sanitizers with an exact heap balance"),
 P("P01", "The Python bindings do what the C++ controllers do",
   "Every exported method, called with numpy arrays, Python functions and the exported enumerations, slices and parameter objects, does what the C++ method of the same name does: the same return values, results (feasibility and cost included), predicted sequences, statistics, log and callback arguments, for both controllers, both forms of the references and every parameter field. An ill-typed call raises an error and changes nothing, a raising or ill-typed Python function is a failed optimisation, and results kept by the caller do not change later.",
   ["programs", "histories", "inputs"], "all sequences of exported operations with their data",
   "the bindings are not compiled by the stock build and have no test; the project's own Python example could not run with them",
   [PY], [("non-linear controller", PY+": mpc::NLMPC<> class"), ("linear controller", PY+": mpc::LMPC<> class"), ("data types", PY+": parameters, slices, results, enumerations")],
   "the same random operation sequence through the bindings in an embedded interpreter and through C++, outcomes compared bit for bit"),
]

def main():
    built = [p for p in PROPS if os.path.exists(os.path.join(here, "checks", p["id"] + ".cpp"))]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="bash ./setup.sh", checks=[], not_applicable=[],
             notes="Property-based testing with a choice-sequence engine (harness/pbt.hpp); every check compiles the headers of /repo's working tree. See DESIGN.md.")
    for p in built:
        m["checks"].append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique="property-based testing: " + p["level_note"], level="exploration",
            level_note=p["level_note"] + "; seeded generation with shrinking, no exhaustive coverage claimed"))
    for p in PROPS:
        if p not in built:
            m["not_applicable"].append(dict(property=p["id"], reason="the check for this property is not built yet"))
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
    for p in PROPS:
        if len(p["title"]) > 80: print("title too long", p["id"], len(p["title"]))
        n = p["statement"].count(". ") + 1
        if n > 3: print("statement too long", p["id"], n)
main()
