"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))

X = "nbkode/runge_kutta/explicit.py"; RC = "nbkode/runge_kutta/core.py"; C = "nbkode/core.py"
MC = "nbkode/multistep/core.py"; EV = "nbkode/event_handler.py"; Z = "nbkode/nbcompat/zeros.py"; B = "nbkode/buffer.py"

p("C01", "A Runge-Kutta step is the published Butcher formula of its method",
  "One step of a Runge-Kutta solver (Runge2, Runge3, Heun3, RungeKutta4, RungeKutta3_8, RungeKutta23, RungeKutta45, DOP853) from (t, y) with step size h ends at time t + h and state y + h*sum(b_i*k_i), where k_i = rhs(t + c_i*h, y + h*sum_j(a_ij*k_j)) and (a, b, c) is the published tableau of that method. The derivative recorded with the new point is the rhs at that point. For the adaptive methods h is the step size of the accepted attempt.",
  ["inputs", "programs"], "every rhs, dimension, time, state and step size",
  "The fixed-step Runge-Kutta methods are only run, never compared with anything; the adaptive ones are compared with SciPy on two linear autonomous problems.",
  [X, RC, "nbkode/runge_kutta/dop853_coefficients.py", C],
  [("ERK and FSAL step builders", X), ("coefficient tables", X + ", dop853_coefficients.py"), ("_step wrapper", C)],
  observe=["Solver.step", "Solver.t / y / f"])
p("C02", "Every Runge-Kutta method has its nominal order of accuracy",
  "The result of one step of a Runge-Kutta solver agrees with the Taylor expansion of the exact solution through its nominal order, for every smooth rhs: order 2 for Runge2; 3 for Runge3, Heun3 and RungeKutta23; 4 for RungeKutta4 and RungeKutta3_8; 5 for RungeKutta45; 8 for DOP853.",
  ["inputs", "programs"], "every smooth rhs, autonomous or not, scalar or not (all rooted trees up to the order)",
  "Tests never measure an order; a linear autonomous problem exercises one tree per order, so errors in the other order conditions or in the time argument are invisible.",
  [X, RC, "nbkode/runge_kutta/dop853_coefficients.py"],
  [("effective tableau of the executed step", X), ("coefficient tables", X)], observe=["Solver.step"])
p("C03", "A multistep step satisfies the published linear multistep formula",
  "Each step of an Adams-Bashforth, Adams-Moulton, BDF or Euler solver with equally spaced history produces the state of the published formula of that method applied to the recorded states and derivatives (for implicit methods: the equation handed to the root finder is exactly that formula, with the rhs at the new time). Consequently the step is exact, up to rounding, for any solution that is a polynomial of degree at most the order of the method (k for AdamsBashforth-k, AdamsMoulton-k and BDF-k). The new time is t + h.",
  ["inputs", "histories"], "every rhs, history, dimension and step size",
  "Tests use tolerances of 0.1 on a slowly decaying exponential, which a first-order method satisfies.",
  [MC, "nbkode/multistep/adams_bashforth.py", "nbkode/multistep/adams_moulton.py", "nbkode/multistep/bdf.py", "nbkode/euler.py"],
  [("ExplicitMultistep / ImplicitMultistep step builders", MC), ("A, B, Bn tables", "nbkode/multistep/*.py")], observe=["Solver.step", "Solver.skip"])
p("C04", "An implicit step is solved to tolerance or raises, never recorded unsolved",
  "A step of an implicit solver either records a state that the root finder accepted as converged - for systems, the residual of the implicit equation has 2-norm at most 1.48e-8; for scalar problems, the residual is exactly zero or the last secant update is at most 1.48e-8 - or raises RuntimeError (LinAlgError if the numerical Jacobian is singular). When it raises, time, state, derivative and history are those before the step.",
  ["inputs", "programs"], "every rhs (including ones on which the iteration does not converge), history, dimension and step size",
  "The tests only integrate slow linear decay, where the iteration always converges at once.",
  [MC, Z], [("newton_hd, newton_hd_impl, j_newton, _newton", Z), ("ImplicitMultistep step builder", MC)], observe=["Solver.step", "Solver.skip"])
p("C05", "Multistep solvers start from an equally spaced, genuine history",
  "After construction with a first stepper, the history of a k-point multistep solver is the points t0, t0+h, ..., t0+(k-1)h: the state at t0 is y0, the others are those the first stepper computed at those times from (t0, y0) with the same rhs, and each derivative is the rhs at the recorded point. The solver's current time is t0+(k-1)h, for every t0. With first_stepper_cls=None (or a one-point method) the solver stays at (t0, y0).",
  ["inputs", "configurations"], "every rhs, t0, y0, h, multistep method and first stepper (by class or by name, fixed or variable step, itself multistep or not)",
  "Tests only start at t0 = 0 and only look at the final time.",
  [MC], [("Multistep.__init__", MC)], observe=["Solver.t", "Solver.step"])
p("C06", "The history is a sliding window of the latest accepted points, each with its rhs",
  "At any time the recorded history of a solver holds the latest points it went through, oldest first, times, states and derivatives aligned, and every recorded derivative is the rhs at the recorded time and state. A step appends exactly one point, drops exactly the oldest and leaves the others unchanged; the solver's t, y and f are those of the newest point.",
  ["histories", "inputs"], "every history length, dimension, rhs and sequence of steps",
  "Tests compare f with SciPy for three methods along one trajectory; no test looks at the older points.",
  [B, C, RC, X, MC], [("AlignedBuffer.push", B), ("step builders", RC + ", " + X + ", " + MC)],
  state=[("cache", "last LEN_HISTORY times, states, derivatives", C)], observe=["Solver.t", "Solver.y", "Solver.f", "Solver.interpolate"])
p("C07", "Integration never goes beyond t_bound",
  "No sequence of calls makes the time of a solver exceed t_bound: a step is taken only if the current time plus the current step size is at most the bound, and then ends no later than that. Asking step, skip or run for a time beyond t_bound raises ValueError; asking for more steps than fit raises RuntimeError. The start-up of multistep solvers obeys the bound as well (it raises instead of passing it).",
  ["inputs", "histories"], "every rhs, t_bound, solver and sequence of step / skip / run calls, including rejected adaptive steps",
  "One t_bound (the first step time) is tried per solver, with a single sequence of calls.",
  [C, RC, X, MC], [("_step wrapper with t_bound", C), ("Solver._check_time", C), ("step / skip / run", C), ("Multistep.__init__", MC)], observe=["Solver.t", "step", "skip", "run", "run_events"])
p("C08", "step and skip advance exactly as asked and step reports every step",
  "step(n=N) and skip(n=N) advance exactly N steps or raise RuntimeError because t_bound was reached; with upto_t they take every step that ends at or before upto_t and none beyond (the first step not taken is one that would end after upto_t), and with both they stop at whichever comes first; no arguments means n=1. step returns the time and state of every step it took, in order, none missing; skip leaves the solver in the same state as step. If upto_t is before the current time nothing happens and step returns empty arrays.",
  ["inputs", "histories"], "every n, upto_t, t_bound, solver and current state",
  "Tests use one trajectory, n of 1, 2, 3, 5 and 20, and upto_t at or halfway between step times.",
  [C], [("Solver.step, Solver.skip", C), ("_steps, _nsteps, _skip, _nskip", C)], observe=["Solver.step", "Solver.skip"])
p("C09", "run returns every requested timepoint with the solution at it, or raises",
  "run(t) returns exactly the requested times, in the order they were given (sorted or not, repeated or not, scalar or array), with one state per time: the interpolated solution, in the step of the integration that contains that time (for times within the recorded history: in that history). It advances just as far as needed to cover the largest time. It never returns fewer points: a time before the recorded history or beyond t_bound raises ValueError, and if t_bound prevents reaching a time it raises RuntimeError.",
  ["inputs", "histories"], "every array of times, rhs, solver, t_bound and current state",
  "Tests use one grid, forwards and reversed, from a fresh solver, with a t_bound that never matters.",
  [C], [("Solver.run, run_events", C), ("_run_eval", C)], observe=["Solver.run", "Solver.run_events without events"])
p("C10", "The solution does not depend on how the calls are split or ordered",
  "The trajectory of a solver is the same whatever mixture of step, skip and run calls produces it: i steps followed by j steps are i + j steps, skipping is stepping without output, and run(a) followed by run(b) with all b >= all a returns the same values and leaves the solver in the same state as run(a and b together). The value run returns for a time does not depend on the other times requested with it, nor on their order.",
  ["histories", "inputs"], "every split, permutation and interleaving of calls, for every rhs and solver",
  "Each test compares a single split of one trajectory.",
  [C, X], [("Solver.step / skip / run", C), ("_run_eval", C), ("interpolator caching", X)], observe=["step", "skip", "run", "Solver.t / y / f"])
p("C11", "Dense output matches the recorded points and their derivatives",
  "Within each recorded step the interpolated solution takes the recorded states at both ends of the step and has the recorded derivatives there: for fixed-step methods it is the cubic Hermite polynomial of the step that contains the time (also when the history has several steps); for RungeKutta23, RungeKutta45 and DOP853 it is the published dense-output polynomial of the last accepted step. The value depends only on that step and the time, never on an earlier step or on earlier interpolations; interpolate raises ValueError for a time outside the recorded history.",
  ["inputs", "histories"], "every time in the recorded history, every history, rhs and earlier sequence of interpolations",
  "Tests compare the dense output of two methods with SciPy on one linear problem; Hermite interpolation and RungeKutta23 are not compared with anything.",
  [C, X, "nbkode/runge_kutta/dop853_coefficients.py"], [("Solver._interpolate, Solver.interpolate", C), ("RkInterpolator, DOP853Interpolator", X)],
  state=[("updated_t / Q / F", "step the cached interpolant belongs to", X)], observe=["Solver.interpolate", "Solver.run"])
p("C12", "Adaptive solvers accept only steps within tolerance and control the step size",
  "RungeKutta23, RungeKutta45 and DOP853 accept an attempt only if its error estimate, scaled by atol + rtol*max(|y_new|, |y_old|) componentwise and averaged in root-mean-square, is below 1 (the published estimator of the method); a rejected attempt leaves time, state, derivative and history unchanged. After each attempt the step size is multiplied by safety_factor*error**(-1/(q+1)), limited to [min_factor, max_factor] (by max_factor if the error is zero), where q is the order of the error estimator, and it never exceeds max_step, from the first step on.",
  ["inputs", "programs"], "every rhs, state, tolerances and options with 0 < min_factor < 1 < max_factor and 0 < safety_factor < 1",
  "Tests follow SciPy on two decaying exponentials where steps are essentially never rejected and the limits never matter; max_step and the options are never set.",
  [RC, X, C], [("_step_error, _scaled_error_norm, _step_update", RC), ("FSAL / DOP853 step builders", X), ("VariableStep, VariableStepOptions", C)], observe=["Solver.step", "Solver.h"])
p("C13", "An event is recorded exactly when its function crosses zero in its direction",
  "During run_events, for each step from t to t' an event with function g records exactly one new entry if g goes from <= 0 to >= 0 (and its direction is positive or zero) or from >= 0 to <= 0 (and its direction is negative or zero), and none otherwise; a zero that ended one step is not recorded again at the start of the next. The recorded time lies within the step and the recorded state is the interpolated solution at that time. Every event given is watched at every step, from the state at the time of the call, independently of the other events.",
  ["inputs", "programs", "histories"], "every event function, direction, number of events, rhs, solver and step",
  "No test uses events.",
  [EV, C], [("Event.evaluate, EventHandler.evaluate, build_handler", EV), ("_run_eval_events", C)],
  state=[("last_t, last_value", "event function at the previous step", EV)], observe=["Solver.run_events"])
p("C14", "Event times are located by a valid bisection of the crossing",
  "For any continuous or discontinuous function with values of opposite sign (or zero) at the ends of the interval, the bisection returns a point of the interval at which the function is zero to within the tolerance, or which is an end of a sub-interval with a sign change whose width is the original width divided by 2**maxiter. It raises ValueError exactly if left >= right or the values at the ends have the same sign (including when they are tiny).",
  ["inputs", "programs"], "every function, interval, tolerance and maxiter >= 1",
  "No test calls the bisection.",
  [Z, EV], [("bisect", Z), ("Event.evaluate", EV)], observe=["nbkode.nbcompat.zeros.bisect", "Solver.run_events"])
p("C15", "A terminal event ends the output at the earliest terminal crossing",
  "When terminal events occur, the output of run_events consists of the requested times before the earliest terminal crossing, each with its interpolated state, followed by the time and state of that crossing in place of the remaining requested times; nothing after it is returned and no event after it is reported. Events that are not terminal never shorten or change the output: it equals that of run.",
  ["inputs", "programs"], "every set of terminal and non-terminal events, array of times (sorted or not), rhs and solver",
  "No test uses events.",
  [C, EV], [("_run_eval_events", C), ("EventHandler.evaluate", EV), ("Solver.run_events", C)], observe=["Solver.run_events"])
p("C16", "Results are snapshots and inputs are never modified",
  "Arrays returned by step, run, run_events (including the states of events) and interpolate never change when the solver advances later, and modifying them does not affect the solver. The arrays passed by the caller (y0, params, times) are never modified, and modifying y0 or the times afterwards does not affect the solver.",
  ["histories", "inputs"], "every sequence of calls after which an earlier result or argument is looked at again",
  "Tests compare results right after the call that produced them.",
  [C, B, EV, X], [("Solver.step / run_events / interpolate", C), ("Event.evaluate", EV), ("AlignedBuffer", B)], observe=["step", "run", "run_events", "interpolate"])
p("C17", "A call rejected with ValueError leaves the solver untouched",
  "When step, skip, run, run_events or interpolate raises ValueError because a time is out of range, the time, state, derivative, step size and history of the solver are exactly as before the call, so the integration can continue as if the call had not been made. The error is raised exactly when a requested time is beyond t_bound or (run, run_events, interpolate) before the recorded history, or (interpolate) after the current time.",
  ["inputs", "histories"], "every out-of-range request in every reachable solver state",
  "Tests check that an error is raised, not that the state survives it, and for one value per method.",
  [C], [("Solver._check_time and the range checks", C)], observe=["step", "skip", "run", "run_events", "interpolate"])
p("C18", "Solvers are found by name, alias and characteristics consistently",
  "Looking a solver up by its name or alias in any letter case gives the class of that name, and unknown names raise; the solver mapping behaves as a dictionary over case-folded keys that keeps the spelling last set. Filtering by group, implicit, fixed_step, runge_kutta and multistep returns exactly the registered solvers with those characteristics, each once, where a solver is reported implicit exactly if its step solves an equation and fixed-step exactly if it never changes its step size.",
  ["inputs", "configurations"], "every string, every sequence of mapping operations, every combination of filters",
  "Tests check counts, a few names, and that each filter agrees with the class attribute it reads.",
  [C, "nbkode/util.py", "nbkode/__init__.py", MC, X], [("CaseInsensitiveDict", "nbkode/util.py"), ("get_solvers, check, get_solver", C), ("IMPLICIT / FIXED_STEP", MC + ", " + X)], observe=["nbkode.get_solvers", "nbkode.get_solver", "nbkode.get_groups", "getattr(nbkode, name)"])
p("C19", "Newton, secant and Halley root finders iterate their formula and stop honestly",
  "newton (scalar) and its jitted variant iterate exactly the Newton formula (the Halley formula if a second derivative is given and its correction is below 1, the secant formula if no derivative is given); they report convergence only if the function is exactly zero at the returned point, or the last update is at most tol + rtol*|previous|, or (secant) two equal points have equal values. In all other cases - zero derivative, equal secant values at distinct points, maxiter iterations - they raise RuntimeError (newton with disp=False warns and flags not converged). newton_hd returns only a vector at which the 2-norm of the function is at most atol, or raises RuntimeError (LinAlgError if the numerical Jacobian is singular).",
  ["inputs", "programs"], "every function, derivative, starting point, tolerance and maxiter >= 1",
  "Tests try a dozen functions at a few starting points.",
  [Z, "nbkode/nbcompat/common.py"], [("newton, _newton, j_newton", Z), ("newton_hd, newton_hd_impl, jacobian", Z), ("isclose", "nbkode/nbcompat/common.py")], observe=["nbkode.nbcompat.newton", "j_newton", "newton_hd"])
p("C20", "Construction sets up exactly the problem that was given",
  "A newly built solver is at time t0 and state y0 (any scalar or sequence, as a float vector), with derivative rhs(t0, y0); the rhs it integrates is the given one, with params passed as third argument if and only if params was given. A given h is the step size of fixed-step solvers, first_step (limited to max_step) that of adaptive ones, and options given by name take effect while the others keep their documented defaults.",
  ["inputs", "configurations"], "every rhs, t0, y0, params, step size and combination of options",
  "Tests build solvers with one t0, two y0 and a params tuple, and no options.",
  [C, RC, X, MC], [("Solver.__init__", C), ("VariableStep, VariableStepOptions", C), ("RungeKutta.__init__", RC)], observe=["Solver.t / y / f / h / rhs"])
p("C21", "Compiled and interpreted execution agree",
  "With NBKODE_NONUMBA set, every solver gives the same results as with Numba, up to rounding.",
  ["programs", "configurations"], "every rhs, solver and sequence of calls",
  "The test suite only runs with Numba.",
  ["nbkode/nbcompat/nb_to_import.py", "nbkode/nbcompat/numbasub.py"], [("NBKODE_NONUMBA switch", "nbkode/nbcompat/nb_to_import.py")], observe=["all solvers"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import jsonschema
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x, S); assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
print(len(P))
