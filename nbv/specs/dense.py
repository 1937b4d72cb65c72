"""Dense output: C11 (polynomial of the containing step), C10 (no memory of earlier requests), C16 (copies), C17 (range)."""
from .common import *
from .multistep import newest
from .rk import accepted, combo, do_step, find_call, hooks, stages
from .tables import BUTCHER, DENSE, DOP_D, DOP_EXTRA_A, DOP_EXTRA_C
from ..tasks import add

nb = load()


def hermite(x, h, y0, y1, f0, f1):
    """The cubic with value y0, y1 and derivative f0, f1 at x = 0, 1 (x = (t - t0)/h), in Hermite's basis."""
    return ((1 + 2 * x) * (1 - x) * (1 - x) * y0 + x * (1 - x) * (1 - x) * h * f0
            + x * x * (3 - 2 * x) * y1 + x * x * (x - 1) * h * f1)


def lemma():
    """Oracle check: the polynomial above has the stated ends and derivatives (so the obligations below are the property)."""
    run = ctx().run
    x, h, y0, y1, f0, f1 = z3.Reals("x h y0 y1 f0 f1")
    p = lambda v: hermite(v, h, y0, y1, f0, f1)
    poly(run, "value at the start", p(z3.RealVal(0)), y0)
    poly(run, "value at the end", p(z3.RealVal(1)), y1)
    e = z3.Real("e")

    def slope(at):
        """coefficient of e in p(at + e), over h"""
        R = ring.ring()
        out = {}
        (ea, _), = [(m, v) for m, v in R.norm(e).items()]
        for m, v in R.norm(p(z3.RealVal(at) + e)).items():
            if [a for a, n in m if (a, 1) == ea[0]] and [n for a, n in m if a == ea[0][0]] == [1]:
                out[tuple(t for t in m if t != ea[0])] = v
        return out
    for at, f, nm in ((0, f0, "start"), (1, f1, "end")):
        run.record("derivative at the %s" % nm, slope(at) == ring.ring().norm(h * f), "slope")


def request(S, te):
    """interpolate(te) -> (value closure, None) or (None, exception)"""
    with contracts():
        try:
            r = S.solver.interpolate(SR(te))
        except ValueError as ex:
            return None, ex
    return r, None


def fill(S, ts, Y, F):
    """Set the recorded history to the given points."""
    def pick(fs):
        def content(idx):
            j, rest = idx[0], [dim_expr(i) for i in idx[1:]]
            if isinstance(j, int):
                return fs[j](*rest)
            r = fs[0](*rest)
            for k in range(1, len(fs)):
                r = z3.If(dim_expr(j) == k, fs[k](*rest), r)
            return r
        return content
    S.cache.ts.st._content = pick([(lambda t: (lambda: t))(t) for t in ts])
    S.cache.ys.st._content = pick(Y)
    S.cache.fs.st._content = pick(F)


def piecewise(name, start, j):
    """The j-th recorded step of a history whose first points coincide (`start` of them, as after construction)."""
    def spec():
        c = ctx()
        run = c.run
        S = Setup(name, spaced=False)
        L = S.L
        hp = [z3.Real("w%d" % k) for k in range(L)]
        c.assume(z3.And([w > 0 for w in hp]))
        ts = [z3.Real("A0")]
        for k in range(1, L):
            ts.append(ts[0] if k < start else ts[-1] + hp[k])
        Y = [z3.Function("Y%d" % max(k, start - 1), z3.IntSort(), z3.RealSort()) for k in range(L)]
        F = [S.rhs.value(ts[k], Y[k]) for k in range(L)]
        fill(S, ts, Y, F)
        S.snapshot()
        x = z3.Real("x")
        c.assume(z3.And(x >= 0, x <= 1))
        te = ts[j - 1] + x * hp[j]
        r, ex = request(S, te)
        run.record("a time within the history is accepted", ex is None, str(ex))
        if ex is not None:
            return
        run.cover("interpolated")
        v = vec(r)
        if c.entails(x == 0):
            run.prove("the recorded state at the start of the step", v(I) == Y[j - 1](I))
        elif c.entails(x == 1):
            run.prove("the recorded state at the end of the step", v(I) == Y[j](I))
        else:
            close_poly(run, "the Hermite cubic of the step that contains the time", v(I), hermite(x, hp[j], Y[j - 1](I), Y[j](I), F[j - 1](I), F[j](I)), x)
        S.unchanged(run, "interpolate")
        mutation(S, r, run)
    return spec


def close_poly(run, name, a, b, x):
    """a == b as polynomials; at the ends of the step (which the code may single out) by the solver."""
    if not run.proving:
        return
    ok, detail = ring.close(a, b, TOL)
    if not ok:
        for v in (0, 1):
            if ctx().entails(x == v):
                ok, detail = ring.close(z3.substitute(a, (x, z3.RealVal(v))), z3.substitute(b, (x, z3.RealVal(v))), TOL)
    run.record(name, ok, detail, backend="ring normal form")


def mutation(S, r, run):
    """The result is a copy: writing to it does not reach the solver."""
    a = Arr.of(r)
    a[...] = SR(z3.Real("junk"))
    S.unchanged(run, "modifying the result of interpolate")


def outside(name):
    def spec():
        c = ctx()
        run = c.run
        S = Setup(name, spaced=False)
        te = z3.Real("te")
        c.assume(z3.Or(te < S.ts0[0], te > S.ts0[S.L - 1]))
        r, ex = request(S, te)
        run.record("a time outside the history raises ValueError", ex is not None, "a value was returned")
        run.cover("rejected")
        S.unchanged(run, "interpolate (rejected)")
        run.prove("interpolate (rejected): step size unchanged", to_real(S.solver.h) == S.h_old)
    return spec


# ---------------------------------------------------------------- Runge-Kutta dense output

def published(S, name, x):
    """Published dense output at t_old + x*h of the step just taken -> (value at I or None, why)"""
    A, b, cc = BUTCHER[name]
    tn, yn, _ = accepted(S)
    h = S.h_attempt
    T0, y = S.T, S.ys_old(S.L - 1, I)
    calls = S.rhs.calls[:S.step_calls]
    ks, missing = stages(S.rhs, S.Fl, T0, y, h, A, cc)
    if missing:
        return None, missing
    yexp = y + combo(h, [(w, k(I)) for w, k in zip(b, ks)])
    f = find_call(S.rhs, T0 + h, yexp)
    if f is None:
        return None, "the rhs is never evaluated at the new point"
    ks = ks + [f]
    if name in DENSE:
        terms = []
        for i, k in enumerate(ks):
            pw = x
            w = z3.RealVal(0)
            for m in DENSE[name][i]:
                w = w + q(m) * pw
                pw = pw * x
            terms.append(w * k(I))
        return y + h * z3.Sum(terms), ""
    for i in range(3):
        te = T0 + q(DOP_EXTRA_C[i]) * h
        ye = y + combo(h, [(a, k(I)) for a, k in zip(DOP_EXTRA_A[i], ks)])
        f = find_call(S.rhs, te, ye)
        if f is None:
            return None, "the rhs is never evaluated at extra stage %d of the published dense output" % (i + 1)
        ks = ks + [f]
    dy = combo(h, [(w, k(I)) for w, k in zip(b, ks)])
    F = [dy, h * ks[0](I) - dy, 2 * dy - h * (ks[12](I) + ks[0](I))]
    F += [combo(h, [(w, k(I)) for w, k in zip(row, ks)]) for row in DOP_D]
    # Hairer's nested form: y0 + x*(F0 + (1-x)*(F1 + x*(F2 + (1-x)*(F3 + ...))))
    v = z3.RealVal(0)
    for i in reversed(range(len(F))):
        v = (v + F[i]) * (x if i % 2 == 0 else 1 - x)
    return y + v, ""


def mark(S):
    """The state from which the next step starts."""
    S.snapshot()
    S.T = S.ts_old(S.L - 1)
    f = S.fs_old
    S.Fl = lambda i: f(S.L - 1, i)
    hooks(S)
    S.step_calls = len(S.rhs.calls)


def arbitrary(S, tag, after=None):
    """Any reachable state (at or after the given time): history, stages and step size."""
    c = ctx()
    Tn, hq, gap, hn = z3.Reals("Tn_%s hq_%s gap_%s hn_%s" % (tag, tag, tag, tag))
    c.assume(z3.And(hq > 0, hn > 0, gap >= 0))
    if after is not None:
        c.assume(Tn == after + hq + gap)
    Y = [z3.Function("Z%s%d" % (tag, k), z3.IntSort(), z3.RealSort()) for k in range(S.L)]
    tt = [Tn - hq, Tn]
    fill(S, tt, Y, [S.rhs.value(tt[k], Y[k]) for k in range(S.L)])
    kf = z3.Function("Kany" + tag, z3.IntSort(), z3.IntSort(), z3.RealSort())
    S.solver.K.st._content = lambda idx: kf(dim_expr(idx[0]), dim_expr(idx[1]))
    S.solver.h.st._content = lambda idx: hn


def rk_dense(name, before):
    """before: what happened before the step whose dense output is requested."""
    def spec():
        c = ctx()
        run = c.run
        S = Setup(name, spaced=False, bound="none")
        mark(S)
        if before != "construction":
            # an earlier interpolation, from an arbitrary state (this fixes the hidden state of the interpolator) ...
            arbitrary(S, "a", S.T)
            mark(S)
            x1 = z3.Real("x1")
            c.assume(z3.And(x1 > 0, x1 < 1))
            ts = vec(S.cache.ts)
            request(S, ts(S.L - 2) + x1 * (ts(S.L - 1) - ts(S.L - 2)))
            # ... then any number of further steps: an arbitrary later history and arbitrary stages
            if c.choose("further steps"):
                arbitrary(S, "b", S.T)
            mark(S)
        if do_step(S) is None:
            return
        run.cover("a step is taken")
        x = z3.Real("x")
        c.assume(z3.And(x >= 0, x <= 1))
        h = S.h_attempt
        if before != "construction" and c.choose("interpolated once before in this step"):
            x2 = z3.Real("x2")
            c.assume(z3.And(x2 > 0, x2 < 1))
            request(S, S.T + x2 * h)
        hist = [vec(a) for a in (S.cache.ts, S.cache.ys, S.cache.fs)]
        r, ex = request(S, S.T + x * h)
        run.record("a time within the step is accepted", ex is None, str(ex))
        if ex is not None:
            return
        run.cover("interpolated")
        v = vec(r)
        tn, yn, _ = accepted(S)
        if c.entails(x == 0):
            run.prove("the recorded state at the start of the step", v(I) == S.ys_old(S.L - 1, I))
        elif c.entails(x == 1):
            run.prove("the recorded state at the end of the step", v(I) == yn(I))
        else:
            want, why = published(S, name, x)
            run.record("the stages of the published dense output are evaluated", want is not None, why)
            if want is not None:
                close_poly(run, "the published dense output polynomial", v(I), want, x)
        now = [vec(a) for a in (S.cache.ts, S.cache.ys, S.cache.fs)]
        for j in range(S.L):
            run.prove("interpolate leaves history entry %d unchanged" % j,
                      z3.And(hist[0](j) == now[0](j), hist[1](j, I) == now[1](j, I), hist[2](j, I) == now[2](j, I)))
        Arr.of(r)[...] = SR(z3.Real("junk"))
        now = [vec(a) for a in (S.cache.ts, S.cache.ys, S.cache.fs)]
        for j in range(S.L):
            run.prove("modifying the result leaves history entry %d unchanged" % j,
                      z3.And(hist[0](j) == now[0](j), hist[1](j, I) == now[1](j, I), hist[2](j, I) == now[2](j, I)))
    return spec


add("C11", "lemma: Hermite's cubic", lemma)
for n in CONCRETE:
    if n in ADAPTIVE:
        for b in ("construction", "an interpolation of an earlier step"):
            for p in ("C11", "C10" if b != "construction" else "C16"):
                add(p, "dense output of %s after %s" % (n, b), rk_dense(n, b), covers=("a step is taken", "interpolated"), loop_limit=0, weight=5)
    else:
        L = getattr(nb, n).LEN_HISTORY
        for j in range(1, L):
            for p in ("C11", "C16"):
                add(p, "step %d of the history of %s" % (j, n), piecewise(n, 1, j), covers=("interpolated",), loop_limit=L + 1)
        for st in range(2, L):
            add("C11", "first step of %s after %d equal points" % (n, st), piecewise(n, st, st), covers=("interpolated",), loop_limit=L + 1)
    add("C17", "interpolate of " + n, outside(n), covers=("rejected",), loop_limit=8)
    add("C11", "interpolate of %s outside its history" % n, outside(n), covers=("rejected",), loop_limit=8)
