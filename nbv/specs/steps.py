"""Every solver class: C06 (history window), C07 (bound, per step), C10 (a step is a function of the state), C20 (construction)."""
from .common import *
from .multistep import Finder, newest
from .rk import OPTS, hooks, options
from ..tasks import add

nb = load()


def setup(name, **kw):
    S = Setup(name, spaced=name in MULTI, **kw)
    hooks(S)
    return S


def public_step(S, fd):
    with fd.contracts():
        try:
            return S.solver.step(), "done"
        except RuntimeError:
            return None, "failed" if fd.calls else "bound"


def window(name):
    def spec():
        run = ctx().run
        S = setup(name)
        fd = Finder(S.d, S.T, S.h, fails=True)
        out, how = public_step(S, fd)
        n = S.L - 1
        if how != "done":
            S.unchanged(run, "no step")
            return
        run.cover("a step is taken")
        ts, ys, fs = vec(S.cache.ts), vec(S.cache.ys), vec(S.cache.fs)
        for j in range(n):
            run.prove("time %d moves down by one" % (j + 1), ts(j) == S.ts_old(j + 1))
            run.prove("state %d moves down by one" % (j + 1), ys(j, I) == S.ys_old(j + 1, I))
            run.prove("derivative %d moves down by one" % (j + 1), fs(j, I) == S.fs_old(j + 1, I))
        run.prove("the new derivative is the rhs at the new point", fs(n, I) == S.rhs.value(ts(n), lambda i: ys(n, i))(I))
        run.prove("time moves forward", ts(n) > S.T)
        run.prove("solver.t is the newest time", to_real(S.solver.t) == ts(n))
        run.prove("solver.y is the newest state", vec(S.solver.y)(I) == ys(n, I))
        run.prove("solver.f is the newest derivative", vec(S.solver.f)(I) == fs(n, I))
        for a, m in ((S.cache.ts, "times"), (S.cache.ys, "states"), (S.cache.fs, "derivatives")):
            run.record("the history keeps its length (%s)" % m, a.shape_[0] == S.L, str(a.shape_))
    return spec


def bound(name):
    """The guard: a step is taken iff t + h <= t_bound, and ends no later than that."""
    def spec():
        c = ctx()
        run = c.run
        o = options(c, False) if name in ADAPTIVE else None
        S = setup(name, bound="finite", options=o and {k: SR(v) for k, v in o.items()})
        tb = to_real(S.tb)
        fd = Finder(S.d, S.T, S.h, fails=True)
        out, how = public_step(S, fd)
        tn, yn, fn = newest(S)
        if how == "bound":
            run.cover("no step")
            run.prove("a step is refused only if it would pass the bound", S.T + S.h > tb)
        if how != "done":
            S.unchanged(run, "no step")
            return
        run.cover("a step is taken")
        run.prove("a step is taken only if it fits", S.T + S.h <= tb)
        run.prove("the step does not pass the bound", tn <= tb)
    return spec


# ---------------------------------------------------------------- construction (C20)

DEFAULTS = dict(atol=Fraction(1, 10 ** 6), rtol=Fraction(1, 10 ** 3), min_step=Fraction(1, 10 ** 15), min_factor=Fraction(1, 5),
                max_factor=Fraction(10), safety_factor=Fraction(9, 10))


def construct(name, params):
    def spec():
        c = ctx()
        run = c.run
        d = dimension()
        base = Rhs(d)
        got = []

        def rhs(t, y, *a):
            got.append(a)
            return base(t, y)
        T0, h = z3.Real("T0"), z3.Real("h")
        c.assume(h > 0)
        kw = {}
        m = z3.Int("m")
        c.assume(m >= 1)
        if params:
            kw["params"] = p = Arr.new((m,), (lambda f: lambda idx: f(dim_expr(idx[0])))(z3.Function("P", z3.IntSort(), z3.RealSort())), "f")
        adaptive = name in ADAPTIVE
        if name in MULTI:
            kw["first_stepper_cls"] = None
        if not adaptive:
            kw["h"] = SR(h)
        elif c.choose("first_step given"):
            kw["first_step"] = SR(h)
        given = {}
        if adaptive:
            for k in OPTS:
                given[k] = z3.Real(k)
            c.assume(z3.And([given[k] >= 0 for k in OPTS] + [given["max_step"] > 0]))
            which = [k for k in OPTS if c.choose("option " + k)]
            for k in which:
                kw[k] = SR(given[k])
        scalar = c.choose("scalar y0")
        y0 = SR(z3.Real("y0")) if scalar else sym_vec("Y0", d)
        if scalar:
            c.assume(d == 1)
        Y = (lambda i: z3.Real("y0")) if scalar else z3.Function("Y0", z3.IntSort(), z3.RealSort())
        n0 = len(c.events)
        with contracts():
            s = getattr(nb, name)(rhs, SR(T0), y0, **kw)
        run.cover("constructed")
        L = s.cache.ts.shape_[0]
        ts, ys, fs = vec(s.cache.ts), vec(s.cache.ys), vec(s.cache.fs)
        f0 = base.value(T0, Y)
        run.prove("the solver is at t0", to_real(s.t) == T0)
        run.prove("the solver is at y0", vec(s.y)(I) == Y(I))
        run.prove("the derivative is rhs(t0, y0)", vec(s.f)(I) == f0(I))
        for j in range(L):
            run.prove("history entry %d is the initial point" % j, z3.And(ts(j) == T0, ys(j, I) == Y(I), fs(j, I) == f0(I)))
        run.record("y is a vector", Arr.of(s.y).ndim == 1, "rank %d" % Arr.of(s.y).ndim)
        run.record("y holds floats", Arr.of(s.y).st.dtype == "f", Arr.of(s.y).st.dtype)
        # the integrated rhs is the given one, with params as third argument iff given
        before = len(got)
        r = vec(s.rhs(SR(z3.Real("tt")), sym_vec("yy", d)))
        run.prove("the integrated rhs is the given one", r(I) == base.value(z3.Real("tt"), z3.Function("yy", z3.IntSort(), z3.RealSort()))(I))
        for a in got:
            run.record("params are passed if and only if given", len(a) == (1 if params else 0), "%d extra arguments" % len(a))
            if params and len(a) == 1:
                pa = Arr.of(a[0])
                run.prove("the given params are passed", z3.And(dim_expr(pa.shape_[0]) == m, vec(pa)(I) == z3.Function("P", z3.IntSort(), z3.RealSort())(I)))
        hs = to_real(s.h)
        if not adaptive:
            run.prove("the given h is the step size", hs == h)
        else:
            o = s.options
            mx = given["max_step"] if "max_step" in which else None
            first = h
            if "first_step" not in kw:
                ev = [e for e in c.events[n0:] if e[0] == "select_initial_step"]
                run.record("the first step is chosen by select_initial_step when not given", len(ev) == 1, "%d calls" % len(ev))
                first = ev[0][5] if ev else h
            run.prove("the first step size is first_step limited to max_step", hs == (first if mx is None else z3.If(first <= mx, first, mx)))
            for k in OPTS + ("min_step",):
                v = getattr(o, k)
                if k in which:
                    run.prove("option %s takes effect" % k, to_real(v) == given[k])
                elif k == "max_step":
                    run.record("default of max_step", not isinstance(v, (SR, Arr)) and v == float("inf"), str(v))
                else:
                    run.record("default of %s" % k, not isinstance(v, (SR, Arr)) and abs(Fraction(float(v)) / DEFAULTS[k] - 1) < TOL, str(v))
    return spec


for n in CONCRETE:
    kw = dict(loop_limit=1) if n in ADAPTIVE else {}
    add("C06", n, window(n), covers=("a step is taken",), **kw)
    add("C07", "one step of " + n, bound(n), covers=("a step is taken", "no step"), **kw)
    add("C20", n, construct(n, False), covers=("constructed",))
    add("C20", n + " with params", construct(n, True), covers=("constructed",))
