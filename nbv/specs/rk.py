"""Runge-Kutta steps: C01 (formula), C02 (order), C12 (adaptive step control), C11 (dense output)."""
from .common import *
from .tables import BUTCHER, DENSE, DOP_D, DOP_EXTRA_A, DOP_EXTRA_C, ERROR, ERROR_ORDER, ORDER, order_conditions
from ..npshim import M, NP
from ..sym import pow_expr, sqrt_expr
from ..tasks import add

load()


def combo(h, terms):
    """h * sum(c * k)"""
    ts = [q(c) * k for c, k in terms if c]
    return h * z3.Sum(ts) if ts else z3.RealVal(0)


def find_call(rhs, t, y, calls=None):
    """The rhs evaluation at (t, y), coefficients up to rounding; None if there is none."""
    for te, ye, f in reversed(rhs.calls if calls is None else calls):
        if ring.close(te, t, TOL)[0] and ring.close(ye(I), y, TOL)[0]:
            return f
    return None


def stages(rhs, f0, T, y, h, A, c, known=()):
    """k_1..k_s of the published formula, each an evaluation the code really made.

    -> (list of closures, None) or (partial, description of the missing stage)"""
    ks = list(known) or [f0]
    for i in range(len(ks), len(A)):
        te = T + q(c[i]) * h
        ye = y + combo(h, [(a, k(I)) for a, k in zip(A[i], ks)])
        f = find_call(rhs, te, ye)
        if f is None:
            return ks, "the rhs is never evaluated at stage %d of the published tableau" % (i + 1)
        ks.append(f)
    return ks, None


def accepted(S):
    """(t_new, y_new closure, h used)"""
    ts, ys = vec(S.cache.ts), vec(S.cache.ys)
    tn = z3.simplify(ts(S.L - 1))
    return tn, (lambda i: ys(S.L - 1, i)), z3.simplify(tn - S.T)


def do_step(S):
    """One public step; None if the bound forbids it."""
    with contracts():
        try:
            return S.solver.step()
        except RuntimeError:
            return None


def formula(name):
    A, b, c = BUTCHER[name]

    def spec():
        run = ctx().run
        S = Setup(name, spaced=False)
        hooks(S)
        if do_step(S) is None:
            S.unchanged(run, "no step beyond the bound")
            return
        run.cover("a step is taken")
        tn, yn, _ = accepted(S)
        h = S.h_attempt
        run.prove("the step ends at t + h", tn == S.T + h)
        y = S.ys_old(S.L - 1, I)
        ks, missing = stages(S.rhs, S.F[S.L - 1], S.T, y, h, A, c)
        run.record("every stage of the tableau is evaluated", missing is None, missing)
        if missing is None:
            poly(run, "y_new = y + h*sum(b_i*k_i)", yn(I), y + combo(h, [(w, k(I)) for w, k in zip(b, ks)]))
        fs = vec(S.cache.fs)
        f = S.rhs.value(tn, yn)
        run.prove("the recorded derivative is the rhs at the new point", fs(S.L - 1, I) == f(I))
    return spec


def hooks(S, on_head=None, on_back=None):
    """Track the step size at the start of the current attempt (loops that change the solver's h)."""
    run = ctx().run
    S.h_attempt = S.h_old
    S.attempt_calls = len(S.rhs.calls)

    def changes_h(loop):
        h = S.solver.h
        ser = h.st.serial if isinstance(h, Arr) else None
        return any(k[0] == "stor" and k[1] == ser or k[0] == "attr" and k[2] == "h" for k in loop.info.writes)

    def history():
        return S.cache.ts.st._content, S.cache.ys.st._content

    def attempts(loop):
        """The loop over the attempts of one step: it changes the step size, not the history."""
        st = S.cache.ts.st.serial
        return changes_h(loop) and (not loop.cut or not any(k[0] == "stor" and k[1] == st for k in loop.info.writes))

    seen = {}

    def entry(loop):
        if attempts(loop):
            run.prove("the first attempt uses the solver's step size", to_real(S.solver.h) == S.h_old)

    def head(loop):
        if attempts(loop):
            S.h_attempt = to_real(S.solver.h)
            S.attempt_calls = len(S.rhs.calls)
            if on_head:
                on_head()

    def back(loop):
        before = seen.get(id(loop), start)
        seen[id(loop)] = now = history()
        keep.append(loop)
        if not loop.cut and any(a is not b for a, b in zip(before, now)):
            return      # a step was recorded
        if attempts(loop):
            if on_back:
                on_back()
            if not loop.cut:
                S.h_attempt = to_real(S.solver.h)
    start, keep = history(), []
    run.hooks = dict(entry=entry, head=head, back=back)


def order(name):
    def spec():
        run = ctx().run
        S = Setup(name, spaced=False, bound="none")
        hooks(S)
        if do_step(S) is None:
            return
        run.cover("a step is taken")
        if not run.proving:
            return
        tn, yn, _ = accepted(S)
        h = S.h_attempt
        y = S.ys_old(S.L - 1, I)
        calls = S.rhs.calls[S.attempt_calls:]
        fs = [S.F[S.L - 1]] + [f for _, _, f in calls]
        keys = [f(I) for f in fs]
        ok, A, c, why = True, [[Fraction(0)] * len(fs)], [Fraction(0)], ""
        for te, ye, f in calls:
            row, w = linear(ye(I) - y, h, keys)
            ct, w2 = coefficient(te - S.T, h)
            if row is None or ct is None:
                ok, why = False, w or w2
                break
            A.append(row)
            c.append(ct)
        row, w = linear(yn(I) - y, h, keys)
        if row is None:
            ok, why = False, w
        run.record("the step is a Runge-Kutta formula", ok, why)
        if not ok:
            return
        for i in range(len(A)):
            run.record("stage %d is consistent with time (row sum)" % (i + 1), abs(sum(A[i]) - c[i]) < 1e-11, "sum(a_ij) - c_i = %g" % (sum(A[i]) - c[i]))
        # unused stages do not matter
        for t, r in order_conditions(A, row, ORDER[name]):
            run.record("order condition of tree %s" % (t,), abs(r) < 1e-11, "residual %.3g" % float(r))
    return spec


def linear(e, h, keys):
    """Coefficients of e = h * sum(c_j * key_j); (None, why) if e has another form."""
    R = ring.ring()
    try:
        p = R.norm(e)
        hm = R.norm(h)
    except ring.NotPoly as ex:
        return None, str(ex)
    units = []
    for k in keys:
        (m, v), = ring.pmul(hm, R.norm(k)).items()
        units.append((m, v))
    row = [Fraction(0)] * len(keys)
    for m, v in p.items():
        for j, (u, w) in enumerate(units):
            if u == m:
                row[j] = v / w
                break
        else:
            if abs(v) > TOL:
                return None, "unexpected term %s (coefficient %.3g)" % (R.show(m), float(v))
    return row, ""


def coefficient(e, h):
    R = ring.ring()
    p = R.norm(e)
    (hm, hv), = R.norm(h).items()
    c = Fraction(0)
    for m, v in p.items():
        if m == hm:
            c = v / hv
        elif abs(v) > TOL:
            return None, "unexpected term %s" % R.show(m)
    return c, ""


# ---------------------------------------------------------------- step size control

OPTS = ("atol", "rtol", "min_factor", "max_factor", "safety_factor", "max_step")


def options(c, finite_max=True, any_safety=False):
    """Arbitrary sensible options: positive, with min_factor <= 1 <= max_factor, safety_factor <= 1 (any_safety: or above)."""
    o = {k: z3.Real(k) for k in OPTS}
    c.assume(z3.And(o["atol"] > 0, o["rtol"] >= 0, o["min_factor"] > 0, o["min_factor"] <= 1, o["max_factor"] >= 1,
                    o["safety_factor"] > 0, z3.BoolVal(True) if any_safety else o["safety_factor"] <= 1, o["max_step"] > 0))
    if not finite_max:
        del o["max_step"]
    return o


def find_sum(v):
    """The sum over components that the code computed, with terms v(i) up to rounding."""
    g = z3.Int("gi!")
    for kind, args, r in reversed(ctx().registry):
        if kind == "red:sum" and ring.close(args[1](g), v(g), TOL)[0]:
            return r
    return None


def error_norm(S, name, o, h, yn):
    """The published scaled error norm of the current attempt, in terms of what the code computed."""
    c = ctx()
    A, b, cc = BUTCHER[name]
    yo = lambda i: S.ys_old(S.L - 1, i)
    y = yo(I)
    ks, missing = stages(S.rhs, S.F[S.L - 1], S.T, y, h, A, cc)
    if missing is None and name in ADAPTIVE:
        yexp = y + combo(h, [(w, k(I)) for w, k in zip(b, ks)])
        f = find_call(S.rhs, S.T + h, yexp)
        if f is None:
            missing = "the rhs is never evaluated at the new point"
        ks = ks + [f]
    if missing:
        return None, missing, True
    last = S.rhs.calls
    if yn is None:
        for te, ye, f in reversed(last):
            if f is ks[-1]:
                yn = ye
    n = z3.ToReal(dim_expr(S.d))
    norms = []
    for E in ERROR[name]:
        def term(i):
            e = combo(h, [(w, k(i)) for w, k in zip(E, ks)])
            mx = to_real(M["maximum"](NP.abs(SR(yn(i))), NP.abs(SR(yo(i)))))
            s = o["atol"] + o["rtol"] * mx
            return (e / s) * (e / s)
        r = find_sum(term)
        if r is None:
            return None, "no sum of squares of the published error estimate over atol + rtol*max(|y_new|, |y_old|)", False
        norms.append(sqrt_expr(r / n))
    if name == "DOP853":
        e5, e3 = norms
        # err5 / sqrt(1 + (err3/(10 err5))**2), zero if err5 is
        N = c.real("norm")
        c.assume(N >= 0)
        c.assume((N == 0) == (e5 == 0))
        c.assume(z3.Implies(e5 > 0, N * N * (1 + (e3 / (10 * e5)) * (e3 / (10 * e5))) == e5 * e5))
        for x in ("sqrt",):
            for kind, args, r in c.registry:
                if kind == x:
                    c.assume(z3.Implies(z3.And(e5 > 0, args[0] == 1 + (e3 / (10 * e5)) * (e3 / (10 * e5))), N == e5 / r))
        return N, None, False
    return norms[0], None, False


def new_h(name, o, h, N):
    """min(max_step, h * clip(safety * N**(-1/(q+1)))), h * max_factor for a zero error."""
    if ctx().entails(N == 0):
        f = o["max_factor"]
    else:
        p = pow_expr(N, q(1 / (ERROR_ORDER[name] + 1)))
        f = o["safety_factor"] / p
        f = z3.If(f < o["min_factor"], o["min_factor"], z3.If(f > o["max_factor"], o["max_factor"], f))
    r = h * f
    return z3.If(r > o["max_step"], o["max_step"], r)


def check_rule(run, name, o, h, N, hn, tag):
    """hn is the step size after an attempt of size h with error norm N (clause by clause, to keep queries small)."""
    c = ctx()
    lim = o.get("max_step")
    cap = (lambda x: x) if lim is None else (lambda x: z3.If(x > lim, lim, x))
    if c.entails(N == 0):
        run.prove(tag + "zero error: the step size grows by max_factor, up to max_step", hn == cap(h * o["max_factor"]))
        return
    if not c.entails(N > 0):
        run.prove(tag + "zero error: the step size grows by max_factor, up to max_step", z3.Implies(N == 0, hn == cap(h * o["max_factor"])))
    p = pow_expr(N, q(1 / (ERROR_ORDER[name] + 1)))
    f = o["safety_factor"] / p
    c.assume(z3.Implies(N > 0, p > 0))
    lo, hi = o["min_factor"], o["max_factor"]
    run.prove(tag + "step size rule: limited by min_factor", z3.Implies(z3.And(N > 0, f <= lo), hn == cap(h * lo)))
    run.prove(tag + "step size rule: limited by max_factor", z3.Implies(z3.And(N > 0, f >= hi), hn == cap(h * hi)))
    run.prove(tag + "step size rule: safety_factor * error**(-1/(q+1))", z3.Implies(z3.And(N > 0, f > lo, f < hi), hn == cap(h * f)))


def control(name, finite_max):
    def spec():
        c = ctx()
        run = c.run
        o = options(c, finite_max, True)
        S = Setup(name, spaced=False, bound="none", options={k: SR(v) for k, v in o.items()})
        if finite_max:
            run.prove("the first step size is at most max_step", to_real(S.solver.h) <= o["max_step"])
            run.prove("the first step size is first_step limited to max_step",
                      to_real(S.solver.h) == z3.If(S.h <= o["max_step"], S.h, o["max_step"]))
        else:
            run.prove("the first step size is first_step", to_real(S.solver.h) == S.h)
        # the step size of an arbitrary later moment
        if isinstance(S.solver.h, Arr):
            hh = z3.Real("h_now")
            c.assume(hh > 0)
            if finite_max:
                c.assume(hh <= o["max_step"])
            S.solver.h.st._content = lambda idx: hh
            S.h_old = hh

        def verdict(accept, yn):
            N, why, hard = error_norm(S, name, o, S.h_attempt, yn)
            if N is None:
                if run.proving:
                    run.obligations.append(Obligation("the error estimate of the attempt is the published one",
                                                      "refuted" if hard else "unknown", pathstr(c), why))
                return
            hn = to_real(S.solver.h)
            if accept:
                run.prove("an accepted attempt has scaled error below 1", N < 1)
            else:
                run.prove("a rejected attempt has scaled error at least 1", N >= 1)
            check_rule(run, name, o, S.h_attempt, N, hn, "accepted: " if accept else "rejected: ")
            if finite_max:
                run.prove("the step size never exceeds max_step", hn <= o["max_step"])

        def back():
            if run.proving:
                run.cover("an attempt is rejected")
                verdict(False, None)
                S.unchanged(run, "rejected attempt")
        hooks(S, on_back=back)
        if do_step(S) is None:
            return
        run.cover("an attempt is accepted")
        tn, yn, _ = accepted(S)
        run.prove("the accepted attempt advances by its step size", tn == S.T + S.h_attempt)
        if run.proving:
            verdict(True, yn)
    return spec


for n in RK:
    kw = dict(loop_limit=1) if n in ADAPTIVE else {}
    kw["covers"] = ("a step is taken",)
    add("C01", n, formula(n), **kw)
    add("C02", n, order(n), **kw)
for n in ADAPTIVE:
    add("C12", n, control(n, True), loop_limit=1, weight=9, covers=("an attempt is accepted", "an attempt is rejected"))
    add("C12", n + " (max_step=inf)", control(n, False), loop_limit=1, weight=5, covers=("an attempt is accepted", "an attempt is rejected"))
