#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay easy to edit)."""
import json, os
S = "src/solver_n_dimensional/"
RF = S + "solver/rootfinder.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "A successful solve is truthful",
  "When solving returns Ok, every equation's stopping residual (its own normalization applied to the left and right members at the model's final point) is a number and is at most the tolerance, and the last model evaluation reported no error. A convergence whose last evaluation was reported as inaccurate is returned as a final-evaluation error, never as Ok. NonConvergence is only returned when at least one stopping residual is above the tolerance or is not a number.",
  ["inputs", "configurations", "fault_sequences"],
  "every model (including models that yield NaN or infinities), initial guess, resolution method, damping, tolerance, iteration budget, normalization mix and sequence of model errors",
  "Tests check a handful of smooth published systems that all converge, none of which yields NaN, mixes normalizations per equation at the stopping test, or converges on an inaccurate initial or damped point.",
  [RF, S + "residuals/config.rs", S + "residuals/mod.rs"],
  [("stopping test", RF + " solve()"), ("last-evaluation flag", RF + " solve()/update_model()/damping()"), ("stopping residuals", S + "residuals/config.rs evaluate_stopping_residuals")],
  ["result of RootFinder::solve", "Model::get_residuals / get_iteratives after solve"],
  [("valid_last_model_evaluation", "whether the last evaluation of the model was exact", RF)])

p("C02", "After solving, the model itself holds the answer",
  "When solving returns Ok, NonConvergence or a final-evaluation error, the model's iteratives are exactly the point of its most recent evaluation, which is the last iterate of the run, so its residuals need no re-evaluation. The solver never moves the iteratives after that evaluation.",
  ["inputs", "configurations", "histories"],
  "every run: converged at the start, after any number of iterations, stopped by the budget, with finite-difference or analytic Jacobians, with accepted, damped and refused steps",
  "Tests compare the iteratives with a known root to 1e-6, which a final point shifted by a perturbation or a stale residual also satisfies.",
  [RF, S + "solver/jacobian/jacobian_finite_diff.rs"],
  [("set then evaluate at each update", RF + " update_model()/damping()")],
  ["sequence of set_iteratives/evaluate calls received by the model", "get_iteratives/get_residuals after solve"])

p("C03", "The solver stops exactly when it should",
  "A run ends at the first iterate, the initial guess included, whose stopping residuals all are within the tolerance, and performs no further update after it. Otherwise it performs exactly the maximum number of iterations before returning NonConvergence; a budget of zero evaluates the guess only.",
  ["inputs", "configurations"],
  "every model, guess, tolerance, iteration budget (0 included), method and damping choice",
  "Tests use one tolerance and a budget that is rarely reached; off-by-one budgets and one-iteration-late stops still give the right root.",
  [RF, S + "solver/parameters.rs"],
  [("iteration loop", RF + " solve()")],
  ["number and points of the model evaluations", "result of solve"],
  [("iter", "number of iterations performed", RF)])

p("C04", "Model evaluations are spent as documented",
  "A run evaluates the model once at the guess, once per iteration for the proposed point and once more per damped step; Newton-Raphson additionally obtains one Jacobian per iteration, quasi-Newton methods one at the first iteration and one after each refused step, and no other. A finite-difference Jacobian costs exactly one evaluation per unknown, an analytic Jacobian one Jacobian call and no evaluation, and nothing is evaluated when the guess already converges.",
  ["inputs", "configurations"],
  "every model, problem size, method, damping choice and Jacobian source",
  "Tests look at the root and never count evaluations, while the economy of evaluations is what quasi-Newton methods are documented to exist for.",
  [RF, S + "solver/jacobian/jacobian_finite_diff.rs", S + "solver/jacobian/jacobian_struct.rs"],
  [("jacobian needed flag", S + "solver/jacobian/jacobian_struct.rs compute_jacobian()"), ("quasi newton step", RF + " evaluate_jacobian_quasi_newton_step()")],
  ["evaluate / get_jacobian calls received by the model"],
  [("compute_jacobian_at_next_iteration", "the true Jacobian is due", S + "solver/jacobian/jacobian_struct.rs")])

p("C05", "Each Newton-Raphson step solves the linearised equations",
  "With Newton-Raphson every proposed point is the current point minus the inverse Jacobian applied to the update residuals, where both use the update normalization of each equation at the current point, then limited per unknown. This holds for analytic Jacobians (derivatives of both members) and for finite differences alike, at every iteration of the run.",
  ["inputs", "configurations", "histories"],
  "every smooth system of any size, with every mix of per-equation update normalization and step limits, at every iteration of a run",
  "Tests only check the end of the run: a wrong Jacobian entry, a stale Jacobian or a wrong normalization row still converges on their systems, only more slowly.",
  [RF, S + "solver/jacobian/jacobian_analytic.rs", S + "residuals/values.rs", S + "solver/jacobian/jacobian_finite_diff.rs"],
  [("newton step", RF + " compute_newton_raphson_step()/compute_next_from_inv_jac()")],
  ["points at which the model is evaluated"])

p("C06", "Finite-difference Jacobian and perturbation follow the documented formula",
  "Column j of a finite-difference Jacobian is (R(x + dx_j e_j) - R(x)) / dx_j on the update residuals, where dx_j comes from the parameters of unknown j only: max(dx_abs, dx_rel|x_j|) or dx_abs + dx_rel|x_j| according to the perturbation method. Each unknown is perturbed exactly once, alone, from the same unperturbed point, and equation i always uses its own update normalization.",
  ["inputs", "configurations"],
  "every system, point, size, per-unknown perturbation setting and per-equation normalization",
  "Tests use the default perturbations and the same settings for all unknowns; swapped unknowns, cumulative perturbations or ignored settings give nearly the same Jacobian there.",
  [S + "solver/jacobian/jacobian_finite_diff.rs", S + "iteratives/iterative_var_fd.rs", S + "iteratives/iteratives_base.rs"],
  [("forward difference", S + "solver/jacobian/jacobian_finite_diff.rs compute_jacobian_from_finite_difference"), ("perturbation", S + "iteratives/iterative_var_fd.rs compute_perturbation")],
  ["returned matrix", "points at which the model is evaluated", "IterativeParamsFD::compute_perturbation"])

p("C07", "Finite differences leave the model's memory as they found it",
  "For a model with internal memory, every column of a finite-difference Jacobian is evaluated from the memory the model had when the Jacobian computation started, so the result does not depend on the order of the columns, and when it ends the memory is that reference memory again. Outside a finite-difference Jacobian the solver never alters the memory.",
  ["inputs", "histories"],
  "every model with evaluation-order-dependent memory of any size, any system, method and number of iterations",
  "The only memory test uses a model whose memory is a constant read back at the end; a memory restored once, late, or not at all goes unnoticed.",
  [S + "solver/jacobian/jacobian_finite_diff.rs", S + "model/model_definition.rs"],
  [("memory reset per column", S + "solver/jacobian/jacobian_finite_diff.rs")],
  ["memory of the model at each evaluation", "returned matrix"])

p("C08", "Quasi-Newton update formulas satisfy their documented equations",
  "Each published update function (Broyden 1 and 2, Greenstadt 1 and 2, on the Jacobian or on its inverse, and the general formula) returns the documented rank-one update; in particular the updated matrix satisfies the secant equation and differs from the previous one only along the documented direction. The Jacobian form and the inverse form of the same method are inverse of each other, and the dispatching functions apply the formula of the method they are given.",
  ["inputs"],
  "every invertible matrix, step and residual variation of any size for which the denominators do not vanish",
  "Tests only run the methods to convergence; a transposed factor or a wrong denominator still yields a convergent quasi-Newton method on their systems.",
  [S + "solver/resolution_method.rs", S + "solver/jacobian/jacobian_approximation.rs", S + "solver/jacobian/jacobian_inverse_approximation.rs"],
  [("update formulas", S + "solver/resolution_method.rs"), ("dispatch", S + "solver/jacobian/jacobian_approximation.rs, jacobian_inverse_approximation.rs")],
  ["returned matrices", "JacobianMatrix after approximate_jacobian / approximate_inv_jacobian"])

p("C09", "Quasi-Newton runs follow their method at every iteration",
  "In a quasi-Newton run the first step uses the true Jacobian and every later step uses the matrix obtained by applying the chosen method's update to the steps taken and to the signed update residuals; the stationary method uses the first Jacobian throughout. After a refused step the true Jacobian at the current point is used again.",
  ["inputs", "configurations", "histories"],
  "every system, each of the nine quasi-Newton variants, normalization mix, step limits, damping choice and run length",
  "Tests only compare the final point with the root; the secant data could be taken from the wrong residuals (it was) and the methods still converge there.",
  [RF, S + "solver/jacobian/jacobian_approximation.rs", S + "solver/jacobian/jacobian_inverse_approximation.rs"],
  [("secant data", RF + " update_model()"), ("dispatch", RF + " evaluate_jacobian_quasi_newton_step()")],
  ["points at which the model is evaluated"],
  [("iteratives_step_size, residuals_step_size", "s and y of the last update", RF)])

p("C10", "The step limitation honours its contract",
  "For every current value and every raw step, the limited step moves in the direction of the raw step by the smallest of |raw step|, max_step_abs and max_step_rel*|value|, and the resulting value is then brought within [min_value, max_value]; a raw step within all limits is taken exactly. A raw step that is not a number is never turned into a move, and vector limitation applies to each unknown its own parameters.",
  ["inputs", "configurations"],
  "every value, raw step (zero, tiny, huge, infinite, NaN) and parameter set, for both kinds of iterative parameters",
  "The doc test and unit tests check six points.",
  [S + "iteratives/iterative_var.rs", S + "iteratives/iterative_var_fd.rs", S + "iteratives/iteratives_base.rs"],
  [("limitation", S + "iteratives/iterative_var.rs step_limitation")],
  ["Iterative::step_limitation", "Iteratives::step_limitations"])

p("C11", "Iterates never leave their bounds nor exceed their step limits",
  "After the initial guess, every point the solver proposes or accepts has each unknown within its [min_value, max_value], and each unknown moves from the current iterate by at most max_step_abs and max_step_rel times its magnitude (unless being brought back within its bounds requires more). This holds for every method, for damped points and at every iteration; only finite-difference perturbations may step out.",
  ["inputs", "configurations", "histories"],
  "every system, method, damping choice, Jacobian source, per-unknown limits, at every iteration of a run",
  "Tests run with unlimited iteratives or check that the constrained run converges, not where it went.",
  [RF, S + "iteratives/iterative_var.rs", S + "iteratives/iteratives_base.rs"],
  [("step limitation", RF + " compute_next_from_inv_jac()"), ("damped point", RF + " damping()")],
  ["points at which the model is evaluated"])

p("C12", "Damping acts exactly when a step deteriorates the solution",
  "Without damping no proposed point is ever corrected. With damping, a step whose maximum stopping residual is greater than that of the point it started from is followed by exactly one evaluation at the midpoint of the two points when the Jacobian was computed for the method (Newton-Raphson, stationary, first or recomputed quasi-Newton iteration), and by a recomputation of the true Jacobian at the next iteration when it was an approximation; a step that does not deteriorate is kept as it is.",
  ["inputs", "configurations", "histories"],
  "every system, method, normalization mix, iteration history",
  "Tests with damping check convergence only; a damping that never triggers, always triggers or uses another factor converges as well.",
  [RF, S + "solver/parameters.rs"],
  [("damping", RF + " damping()")],
  ["points at which the model is evaluated"])

p("C13", "Inaccurate evaluations are recovered from without any effect on the run",
  "An evaluation reported as inaccurate during the initial evaluation, a step, a damped step or a finite-difference column changes nothing to the run: the same points are evaluated in the same order as if it had been reported exact. The only effect is on the result: when the run converges and its last evaluation was inaccurate, a final-evaluation error is returned instead of Ok; an inaccurate analytic Jacobian, which yields no values, is reported as a Jacobian error.",
  ["fault_sequences", "inputs"],
  "every set of inaccurate evaluations at any positions of any run, with every method, damping choice and Jacobian source",
  "Tests raise the error at one fixed condition in one model, never while damping nor from an analytic Jacobian (both panicked).",
  [RF, S + "solver/jacobian/jacobian_finite_diff.rs", S + "model/error.rs", S + "errors.rs"],
  [("recovery", RF + " solve()/update_model()/damping()"), ("column recovery", S + "solver/jacobian/jacobian_finite_diff.rs")],
  ["points at which the model is evaluated", "result of solve"])

p("C14", "Model failures are reported with their phase and payload",
  "An unusable evaluation at the guess ends the run with an initial-evaluation error containing the model's message; in a finite-difference or analytic Jacobian, with a Jacobian error wrapping the model's own error; a singular Jacobian, with the non-invertible Jacobian error; during an iteration, the run is recovered or ends with a model-evaluation error wrapping the model's own error. Up to the failure the run is identical to the fault-free one, no evaluation follows a fatal failure, and the error's text contains the model's text.",
  ["fault_sequences", "inputs"],
  "every position of an unusable evaluation or failed Jacobian in any run, with every method, damping choice and Jacobian source; every singular Jacobian",
  "Tests raise one inaccurate error and one non-invertible Jacobian; no test raises an unusable value in a column, in a step or while damping.",
  [RF, S + "errors.rs", S + "model/error.rs", S + "solver/jacobian/jacobian_finite_diff.rs", S + "solver/jacobian/jacobian_analytic.rs", "SPECIFICATIONS.md"],
  [("error propagation", RF + " solve()/update_model()/damping()/compute_jac()")],
  ["result of solve", "calls received by the model after the failure"])

p("C15", "Solving is total: it returns for every model",
  "Solving returns one of its documented results, without panicking and within its evaluation budget, for every model whose members, derivatives or errors are arbitrary: NaN, infinite, huge, denormal, discontinuous, constant or singular. The same holds for every valid configuration, with the log activated or not.",
  ["inputs", "configurations", "fault_sequences"],
  "every model behaviour, valid configuration and sequence of reported model errors",
  "Tests use smooth systems only; a panic needs NaN or infinite members, a zero step, or an error at a particular phase.",
  [RF, S + "solver/jacobian/jacobian_struct.rs", S + "iteratives/iterative_var.rs", S + "solver/log.rs"],
  [("results as values", S + "errors.rs"), ("bounded loop", RF + " solve()")],
  ["result of solve", "absence of panic", "number of evaluations"])

p("C16", "Residual normalization follows its definition",
  "The normalized residual of members x and y is x-y, (x-y)/(|x+y|/2) or (x-y)/(1+|x+y|/2) for the absolute, relative and adaptive methods. Hence it is antisymmetric in the members, zero for equal members (non-zero sum for the relative one), odd under negation of both, invariant by scaling for the relative one, and never greater than the absolute one in magnitude for the adaptive one.",
  ["inputs"],
  "every pair of finite members",
  "Doc tests check six values.",
  [S + "residuals/mod.rs"],
  [("normalization", S + "residuals/mod.rs normalization")],
  ["residuals::normalization"])

p("C17", "Normalized Jacobians are the derivatives of normalized residuals",
  "The derivative normalization is the exact derivative of the normalized residual along any path of the two members, away from the points where it is not differentiable. The normalized Jacobian of a system applies it entry by entry, row i with the members and the update method of equation i.",
  ["inputs", "configurations"],
  "every pair of members and derivatives of any sign and magnitude, every system size and mix of methods per equation",
  "Tests use right members equal to zero with zero derivative, where several terms of the formula vanish.",
  [S + "residuals/mod.rs", S + "residuals/values.rs"],
  [("deriv_normalization", S + "residuals/mod.rs"), ("JacobianValues::normalize", S + "residuals/values.rs")],
  ["residuals::deriv_normalization", "JacobianValues::normalize"])

p("C18", "Stopping and update normalizations are independent, per equation",
  "Each equation's stopping residual uses only its own stopping method and its update residual only its own update method, whatever the methods of the others. In a run, changing the stopping methods (or the tolerance) of an undamped solver never changes which points are visited, only when the run stops.",
  ["configurations", "inputs"],
  "every mix of stopping and update methods, every system size, system and method",
  "Tests use the same method for all equations and for both roles almost everywhere.",
  [S + "residuals/config.rs", RF],
  [("two residual vectors", S + "residuals/config.rs evaluate_stopping_residuals / evaluate_update_residuals"), ("step uses update residuals", RF)],
  ["ResidualsConfig::evaluate_*", "ResidualsConfig::convert_into_vecs", "points at which the model is evaluated"])

p("C19", "A well-formed XML configuration is loaded exactly",
  "Loading a well-formed configuration file yields exactly the values written in it: each unknown and each equation gets its own attributes where present and the defaults of the enclosing node otherwise, in the order of the ids; every documented resolution method keyword gives its method, and damping defaults to false. Attribute order, white space, comments and unknown attributes have no influence, and the two loaders agree on everything they have in common.",
  ["inputs", "configurations"],
  "every configuration: sizes, values (infinities, extreme and subnormal floats included), subsets of overridden attributes, textual layouts",
  "Tests parse two files; an override taken from the wrong attribute or a default shadowing an override needs specific combinations.",
  [S + "xml_parser/xml_file_fd.rs", S + "xml_parser/xml_file_jac.rs", S + "xml_parser/node_iterative_jac.rs", S + "xml_parser/node_iterative_fd.rs", S + "xml_parser/node_residual.rs", S + "xml_parser/node_solver.rs"],
  [("parsers with defaults", S + "xml_parser/node_*.rs")],
  ["from_xml_finite_diff", "from_xml_jacobian"])

p("C20", "A malformed XML configuration is never accepted",
  "A configuration with a missing or misspelt mandatory attribute or node, an ill-formed number, keyword or boolean, ids that are not 0,1,2... in order, a number of unknowns or equations different from the problem size, or invalid limits is rejected by a panic. Whatever is accepted has consistent sizes and valid limits.",
  ["inputs"],
  "every single invalidating mutation at any position of any valid configuration, for both loaders, any few edits of its nodes and attributes, and arbitrary byte-level corruption",
  "Tests cover a handful of malformed fragments parsed one by one.",
  [S + "xml_parser/xml_file_fd.rs", S + "xml_parser/xml_file_jac.rs", S + "xml_parser/util.rs", S + "xml_parser/node_solver.rs", S + "xml_parser/node_residual.rs"],
  [("checks while parsing", S + "xml_parser/util.rs, xml_file_*.rs")],
  ["from_xml_finite_diff", "from_xml_jacobian"])

p("C21", "The log tells what happened",
  "With the log activated, the log file contains, in order, the complete configuration and, for the guess and for every proposed and damped point of the run, its number, all its iteratives, left and right members, stopping residuals and their maximum, exactly as the model and the residual configuration yielded them; damped points, refused steps and the Jacobians used are recorded where they happened, and so is a Jacobian computed anew that fails or is singular.",
  ["inputs", "histories"],
  "every run: system, size, method, damping, Jacobian source, NaN and infinite values included",
  "Tests compare one reference log of one run.",
  [S + "solver/log.rs", RF, S + "solver/jacobian/jacobian_struct.rs", S + "solver/parameters.rs"],
  [("log entries", S + "solver/log.rs")],
  ["content of the log file"])

p("C22", "Logging is passive and survives a crash of the model",
  "Activating the log changes neither the calls made to the model nor the result of the solve. Entries reach the file as the run proceeds: if the model panics at some call, the file already holds, unaltered, everything logged before that call, which is a prefix of the log of the uninterrupted run.",
  ["crash_points", "histories", "inputs"],
  "every call of every run as crash point, every system, method and configuration",
  "No test compares a run with and without log, nor looks at a log after a crash, which is when a debugging log is needed.",
  [S + "solver/log.rs", RF],
  [("append per entry", S + "solver/log.rs add_content")],
  ["calls received by the model", "result of solve", "content of the log file"])

p("C23", "A solve depends on nothing but its inputs",
  "Solving is deterministic, and a solver object used again, on the same or another model, after any previous outcome including errors, behaves exactly like a newly built one: same evaluations, same result. The state of the model before the solve (its iteratives and residuals) has no influence either.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of solves on one solver object with models that converge, fail to converge or raise errors, and every initial model state",
  "Every test builds a new solver and a new model and solves once.",
  [RF],
  [("per-solve state", RF + " solve()")],
  ["calls received by the model", "result of solve"],
  [("iter, jacobian, step sizes, validity flag", "state of the current resolution", RF)])

p("C24", "Static, dynamic and adapted models give the same resolution",
  "The same equations given through a hand-written dynamic model, a statically sized model, or the function and closure adapters (with or without Jacobian) lead to the same sequence of points and the same result. The adapters expose the function's value as left member, zero, or the constants put there, as right member, and the given Jacobian.",
  ["programs", "inputs", "configurations"],
  "every system, size, method, damping choice and configuration",
  "Tests run different systems through the different model kinds and only compare each with its root.",
  [S + "model/model_from_func.rs", S + "model/model_from_closure.rs", S + "model/model_definition.rs", "src/util_nalgebra.rs"],
  [("adapters", S + "model/model_from_func.rs, model_from_closure.rs")],
  ["points at which the model is evaluated", "result of solve", "adapter accessors"])

p("C25", "Equivalent formulations give equivalent runs",
  "With every method, the points visited are equivalent when the equations are reordered, multiplied together by a power of two, negated, or have their two members exchanged, and when the unknowns are renumbered, with limits, bounds and perturbations transformed accordingly. Newton-Raphson, stationary Newton, Broyden's second and Greenstadt's first method also visit equivalent points when unknowns are expressed in other units (or, with an analytic Jacobian, counted in the opposite direction); Newton-Raphson, stationary Newton and Broyden's first method also when the equations are replaced by linear combinations of them. The result is the same.",
  ["inputs", "configurations"],
  "every system and each equivalence transformation, per equation and per unknown",
  "Metamorphic relations between two runs are not tested at all; an index swapped between unknown and equation, or a hidden absolute scale, only shows there.",
  [RF, S + "residuals/mod.rs", S + "solver/jacobian/jacobian_finite_diff.rs", S + "iteratives/iteratives_base.rs"],
  [("invariance of the Newton step", RF)],
  ["points at which the model is evaluated", "result of solve"])

p("C26", "Methods converge where theory guarantees it",
  "Affine systems with an invertible matrix are solved in one Newton-Raphson, stationary or first quasi-Newton iteration from any guess. Started close enough to a simple root of a smooth, well conditioned system, every method converges to that root within the documented default budget, Newton-Raphson quadratically; damping does not prevent it.",
  ["inputs", "configurations"],
  "every well conditioned affine system and guess; every smooth well conditioned system, close guess, method and Jacobian source (Greenstadt's first method, whose update can vanish, in one dimension only)",
  "Tests cover six published systems from fixed guesses.",
  [RF, S + "solver/resolution_method.rs", S + "solver/jacobian/jacobian_struct.rs"],
  [("the whole iteration", RF)],
  ["result of solve", "number of evaluations", "final point"])

p("C27", "Invalid configurations are refused, valid ones kept as given",
  "Constructors panic on non-positive or NaN maximal steps and perturbations, on min_value not strictly below max_value, and on any mismatch of sizes between members, Jacobians, residual methods, unknowns, guess and problem size; every other value is accepted and read back unchanged. The defaults are the documented ones: unlimited steps and bounds, absolute normalization, tolerance 1e-6 and 50 iterations.",
  ["configurations", "inputs"],
  "every combination of constructor arguments, sizes included",
  "Unit tests try one invalid value for some constructors; NaN was accepted everywhere.",
  [S + "iteratives/iterative_var.rs", S + "iteratives/iterative_var_fd.rs", S + "residuals/config.rs", S + "residuals/values.rs", RF, S + "solver/default.rs", S + "iteratives/default.rs"],
  [("constructor checks", S + "iteratives/*.rs, residuals/*.rs, " + RF + " new()")],
  ["constructors and getters"])

p("C28", "The Jacobian holder never serves a stale matrix",
  "After any sequence of exact updates, approximate updates, inverse updates, invalidations and recomputation requests, the holder reports a matrix only together with its own inverse, reports no matrix after an update of the inverse only, reports neither after an invalidation or a refused singular matrix, and its 'approximated' and 'to be computed' indications match the history.",
  ["histories"],
  "every sequence of operations on matrices of any size, singular ones included",
  "No test drives the holder through sequences; each unit test performs one or two operations.",
  [S + "solver/jacobian/jacobian_struct.rs"],
  [("JacobianMatrix", S + "solver/jacobian/jacobian_struct.rs")],
  ["get_jacobian, get_inverse, compute_jacobian, is_jacobian_approximated"],
  [("matrix, inverse, flags", "the held Jacobian", S + "solver/jacobian/jacobian_struct.rs")])

p("C29", "Reference solver and published test cases are consistent",
  "On every one-dimensional equation the reference one-dimensional solvers of the utility crate and the n-dimensional solver in its plain configuration visit the same iterates. The published test systems of the utility crate are the documented equations, have Jacobians equal to the derivatives of their functions at every point, the documented guesses, and listed solutions that are roots.",
  ["inputs"],
  "every one-dimensional equation of the generated families and guess; every point of each published system",
  "The test systems are used by the tests as their own oracle; nothing checks the Jacobians away from the visited points.",
  ["util/src/solver_one_dimensional.rs", "util/src/test_cases/broyden1965.rs", "util/src/test_cases/polynom.rs", RF],
  [("solver1d", "util/src/solver_one_dimensional.rs"), ("test cases", "util/src/test_cases/*.rs")],
  ["solver1d, solver1d_fd", "test case functions"])

p("C30", "User-defined unknowns are honoured",
  "The solver works with any implementation of the Iterative trait: each proposed point is, unknown by unknown, what the user's step limitation returns for the current value and the raw step of that unknown; the raw steps submitted solve the linearised equations (Newton-Raphson); finite differences move exactly one unknown at a time, by exactly the perturbation the user's method returns there, whatever its sign; with an analytic Jacobian the perturbations are never requested and the default methods of the trait suffice. No point is evaluated that comes from neither (but the midpoints of damping).",
  ["inputs", "configurations", "histories"],
  "every implementation of the trait (any step rule, any perturbation rule), per unknown, every method, damping choice and Jacobian source",
  "Tests only use the two iteratives of the crate, on smooth systems.",
  [S + "iteratives/iteratives_base.rs", RF, S + "solver/jacobian/jacobian_finite_diff.rs", S + "model/model_definition.rs"],
  [("Iterative trait and Iteratives", S + "iteratives/iteratives_base.rs")],
  ["calls of step_limitation and compute_perturbation", "points at which the model is evaluated"])

p("C31", "Displayed configurations and values are the actual ones",
  "The texts a user reads (display of solver parameters, iterative configurations, residuals configuration, residual values, of a Jacobian holder; debug text of the solver) give every value held, attributed to the right unknown, equation or matrix entry, and reading the numbers back gives them bit for bit.",
  ["inputs", "configurations"],
  "every configuration, member values and matrix made of arbitrary floats, any number of equations",
  "The display of one sample is tested; a truncation, an exchanged index or member only shows for other values.",
  [S + "residuals/values.rs", S + "residuals/config.rs", S + "solver/parameters.rs", S + "iteratives/iterative_var_fd.rs", S + "iteratives/iterative_var.rs", S + "solver/jacobian/jacobian_struct.rs", RF],
  [("Display implementations", S + "residuals/values.rs")],
  ["to_string and debug texts"])

p("C32", "Each solve is logged apart, on the file asked for",
  "The log may be activated before any solve of a solver object, and again on the same or another file. Activating creates the file with its header, replacing what it held; every later solve appends to the file activated last its own part (configuration, entries, Jacobians), the same as a newly built solver would log for that solve, whatever was solved or logged before; no other file changes. A solve whose initial evaluation is unusable adds nothing.",
  ["histories", "inputs", "configurations"],
  "every sequence of solves (also failed ones) and activations on one object",
  "Tests log one solve per object.",
  [S + "solver/log.rs", RF],
  [("SolverLog::new, add_content", S + "solver/log.rs"), ("activate_debug, reset", RF)],
  ["contents of the log files"])

p("C33", "Additional log information is that of the run",
  "Built with the feature additional_log_info, the log starts with the operating system, host, user and compiler version of the machine, and the start time of the run, universal and local, both the same instant; everything else is recorded as without the feature.",
  ["inputs", "configurations"],
  "every logged run",
  "The tests that compare logs run without the feature, or skip the header.",
  [S + "solver/log.rs"],
  [("write_user_infos, write_rustc_info, write_time", S + "solver/log.rs")],
  ["content of the log file"])

p("C34", "A refused configuration file says what is wrong",
  "The panic message refusing an invalid XML configuration names what is wrong: the attribute that is missing, ill-formed or out of its range (for an ill-formed value of one unknown or equation, also its id), the id got and the one expected, the problem size and the number of unknowns or equations found, the node name got and the one expected.",
  ["inputs"],
  "every single invalidating mutation at any position of any valid configuration, for both loaders",
  "Tests check the message of a handful of fragments; a message naming the attribute or id of another place only shows elsewhere.",
  [S + "xml_parser/util.rs", S + "xml_parser/node_solver.rs", S + "xml_parser/node_residual.rs", S + "xml_parser/node_iterative.rs", S + "xml_parser/node_iterative_jac.rs", S + "xml_parser/xml_file_fd.rs", S + "xml_parser/xml_file_jac.rs"],
  [("parse_*_attribute, parse_id", S + "xml_parser/util.rs")],
  ["panic message of from_xml_jacobian, from_xml_finite_diff"])

p("C35", "Simultaneous resolutions do not disturb each other",
  "Resolutions that go on at the same time, on different solver objects and models, are independent: one taking place inside a call of another's model, several in different threads in any interleaving of the calls of their models, on configuration objects shared or not, logged in different files or not, all make exactly the calls, give the results and write the logs that each does when it runs alone, and all of them end.",
  ["schedules", "histories", "inputs", "configurations"],
  "every set of runs, every point at which one takes place inside another, every interleaving",
  "Every test solves one system after the other in a thread; a state kept outside of the solver object shows only when two resolutions overlap.",
  [RF, S + "solver/log.rs", S + "solver/jacobian/jacobian_finite_diff.rs", S + "iteratives/iteratives_base.rs", S + "residuals/config.rs"],
  [("all state in the solver object, the model and the log", RF)],
  ["calls received by the models", "results of solve", "log files"],
  [("state of a resolution", "fields of RootFinder, reset by solve", RF)])

p("C36", "Nothing is written but the log",
  "Building solver objects, solving, whatever the outcome, displaying, and loading configuration files, valid or not, write nothing on the standard output or error and create, change or remove no file, except the log file where the log was activated. (The message of a panic, which the program's panic hook writes, is not concerned.)",
  ["inputs", "configurations", "histories"],
  "every set of resolutions, logged or not, and every configuration file",
  "No test watches the streams or the directory of the process; a trace left on a rare path (a refused value, a singular Jacobian, the last iteration) never fails a test.",
  [RF, S + "solver/log.rs", S + "xml_parser/util.rs"],
  [("activate_debug, add_content", S + "solver/log.rs"), ("solve and its error paths", RF)],
  ["standard streams, directory of the process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
