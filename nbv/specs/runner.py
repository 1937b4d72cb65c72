"""Solver.step / skip / run / run_events over an abstract trajectory: C07, C08, C09, C10, C15, C16, C17.

The class-level contracts (C01-C06, C11, C12) say what one step and one interpolation do; here the
drivers are verified against those contracts for every trajectory, every number of steps and every
set of requested times.
"""
from .common import *
from ..engine import Q
from ..npshim import guard, pairwise, register_sequence
from ..tasks import add

nb = load()
CORE = sys.modules["nbkode.core"]
BUFFER = sys.modules["nbkode.buffer"]
INT, REAL = z3.IntSort(), z3.RealSort()
NN = z3.Int("Nstep")      # arbitrary step number


class StepCell(Cell):
    """The number of steps done: trajectory facts are instantiated around its values."""

    def __init__(self, flow, v):
        self.flow = flow
        super().__init__("k", v)

    def set(self, v):
        v = z3.simplify(v)
        self.flow.step_term(v)
        self.flow.step_term(z3.simplify(v - 1))
        super().set(v)


class Flow:
    """An arbitrary trajectory.

    After k steps the solver is at (T(k), Y(k)), its next attempt has size H(k); the history is the
    points k-L+1..k.  Contract of a step (C07 class level): nothing happens if T(k) + H(k) exceeds the
    bound given; otherwise T(k) < T(k+1) <= T(k) + H(k).  Contract of the interpolation (C11): a
    function V(k, t) of the state and the time."""

    def __init__(self, bound, d):
        c = ctx()
        self.d, self.tb = d, bound
        self.T = z3.Function("T", INT, REAL)
        self.H = z3.Function("H", INT, REAL)
        self.Y = z3.Function("Y", INT, INT, REAL)
        self.F = z3.Function("Fk", INT, INT, REAL)
        self.V = z3.Function("V", INT, REAL, INT, REAL)
        self.L = z3.Int("L")
        c.assume(self.L >= 2)
        self.k0 = z3.Int("k0")
        self.terms = {}
        self.calls = 0
        self.step_term(self.k0)
        self.step_term(NN)
        self.step_term(NN - 1)
        self.k = StepCell(self, self.k0)
        c.assume(self.k0 >= 0)
        if isinstance(bound, SR):
            c.assume(self.T(self.k0) <= bound.e)

    def step_term(self, t):
        """Trajectory facts at t: H > 0, T(t) <= T(t+1) <= T(t) + H(t), strict from k0 on, T monotone."""
        c = ctx()
        t = z3.simplify(t)
        if t.get_id() in self.terms:
            return
        T, H = self.T, self.H
        c.assume(H(t) > 0)
        c.assume(z3.And(T(t) <= T(t + 1), T(t + 1) <= T(t) + H(t), z3.Implies(t >= self.k0, T(t) < T(t + 1))))
        for u in list(self.terms.values()):
            for a, b in ((t, u), (u, t)):
                c.assume(z3.Implies(a <= b, T(a) <= T(b)))
                c.assume(z3.Implies(a < b, T(a + 1) <= T(b)))
        self.terms[t.get_id()] = t


class KStorage(LiveStorage):
    """Memory of the solver: its content is a function of the number of steps done."""

    def __init__(self, flow, shape, fn, name):
        self.flow, self.fn = flow, fn
        super().__init__(shape, None, "f", name)

    def read(self, idx):
        return self.fn(self.flow.k.get(), idx)

    @property
    def content(self):
        k, fn = self.flow.k.get(), self.fn
        return lambda idx: fn(k, idx)


class Cache(BUFFER.AlignedBuffer):
    """The history as the class invariant C06 describes it."""

    def __init__(self, flow):
        f = flow
        at = lambda k, j: z3.simplify(k - f.L + 1 + dim_expr(j))

        def time(k, idx):
            e = at(k, idx[0])
            f.step_term(e)
            return f.T(e)
        self.ts = Arr(KStorage(f, (f.L,), time, "cache.ts"))
        self.ys = Arr(KStorage(f, (f.L, f.d), lambda k, idx: f.Y(at(k, idx[0]), dim_expr(idx[1])), "cache.ys"))
        self.fs = Arr(KStorage(f, (f.L, f.d), lambda k, idx: f.F(at(k, idx[0]), dim_expr(idx[1])), "cache.fs"))


class Model(CORE.Solver, abstract=True):
    LEN_HISTORY = 2
    flow = None

    @staticmethod
    def _step(t_bound, rhs, cache, h, *args):
        f = Model.flow
        c = ctx()
        f.calls += 1
        c.run.record("step is called with the solver's own cache", cache is f.cache, "another object")
        k = f.k.get()
        if not (isinstance(t_bound, float) and t_bound == float("inf")):
            if isinstance(f.tb, SR):
                c.run.prove("a step is never allowed to pass t_bound", to_real(t_bound) <= f.tb.e)
            if c.decide(f.T(k) + f.H(k) > to_real(t_bound)):
                return False
        elif isinstance(f.tb, SR):
            c.run.record("a step is never allowed to pass t_bound", False, "called with an infinite bound")
        f.step_term(k)
        f.k.set(k + 1)
        return True

    @staticmethod
    def _interpolate(t_eval, rhs, cache, *args):
        f = Model.flow
        c = ctx()
        c.run.record("interpolation uses the solver's own cache", cache is f.cache, "another object")
        t = to_real(t_eval)
        k = f.k.get()
        f.step_term(k)
        f.step_term(k - 1)
        f.step_term(k - f.L + 1)
        c.run.prove("interpolation is asked within the recorded history only", z3.And(f.T(k - f.L + 1) <= t, t <= f.T(k)))
        # the worst case: a view into memory of the solver, overwritten by later steps
        return Arr(KStorage(f, (f.d,), lambda k, idx: f.V(k, t, dim_expr(idx[0])), "interpolated"))

    _fixed_step_builder = _step_builder = classmethod(lambda cls: None)


def make(tb=None, d=None):
    """(solver, flow) after an arbitrary number of steps."""
    c = ctx()
    d = dimension() if d is None else d
    tb = bound_case() if tb is None else tb
    flow = Flow(tb, d)
    Model.flow = flow
    Model.__abstractmethods__ = frozenset()
    with contracts():
        s = Model(lambda t, y: sym_vec("rhs", d), SR(z3.Real("t_init")), sym_vec("y_init", d), h=SR(z3.Real("h_init")), t_bound=tb)
    flow.cache = Cache(flow)
    s.cache = flow.cache
    s.h = Arr(KStorage(flow, (), lambda k, idx: flow.H(k), "h"))
    flow.rhs = s.rhs
    flow.solver = s
    flow.ids = {k: id(v) for k, v in vars(s).items()}
    return s, flow


def bound(finite):
    return SR(z3.Real("t_bound")) if finite else float("inf")


def infinite(f):
    return not isinstance(f.tb, SR)


def same_objects(f):
    v = vars(f.solver)
    return all(id(v.get(k)) == i for k, i in f.ids.items())


# ---------------------------------------------------------------- invariants

def times_in_scope(loop):
    """1-d float arrays visible at the loop: possible sequences of requested times."""
    out = {}
    for n, v in loop.state0.locs.items():
        if isinstance(v, Arr) and v.ndim == 1 and v.st.dtype == "f":
            out[n] = v
    return out


def domain(loop, ints, reals, bools, arrs, lists):
    """Candidate loop invariants about the trajectory (kept only if proved inductive)."""
    f = Model.flow
    out = {}
    if f is None:
        return out
    c = ctx()
    k0, T, Y, V = f.k0, f.T, f.Y, f.V
    K = lambda: f.k.get()
    out["the time does not pass t_bound"] = lambda st: z3.BoolVal(True) if infinite(f) else T(K()) <= f.tb.e
    for nm, b in f.limits:
        out["%s: no step passed it" % nm] = lambda st, b=b: z3.Or(K() == k0, T(K()) <= b)
    counters = [("k", lambda st: K() - k0)] + [(n, g) for n, v0, g in ints]

    # what the positions of outputs can hold: the steps' times and states, or interpolated states
    def position(name, length, at):
        if not f.requests:
            out["%s[Q] = T(k0+1+Q) for Q < %s" % (name, length[0])] = lambda st: inside(length[1](st), at(st, "t"), lambda v: v == T(k0 + 1 + Q))
        if not f.requests:
            out["%s[Q] = Y(k0+1+Q) for Q < %s" % (name, length[0])] = lambda st: inside(length[1](st), at(st, "y"), lambda v: v == Y(k0 + 1 + Q, I))
        if f.requests:
            for bn, b in B.items():
                out["%s[Q] interpolated at %s[Q] for Q < %s" % (name, bn, length[0])] = \
                    lambda st, b=b: inside(length[1](st), at(st, "y"), lambda v: value_at(f, b.at((Q,)), v))
                out["%s[Q] = %s[Q] for Q < %s" % (name, bn, length[0])] = \
                    lambda st, b=b: inside(length[1](st), at(st, "t"), lambda v: v == b.at((Q,)))

    def inside(n, v, rel):
        return None if v is None else z3.BoolVal(True) if v is True else z3.Implies(z3.And(Q >= 0, Q < n), rel(v))
    B = times_in_scope(loop) if f.requests else {}
    for n, a, g in arrs:
        if a.st.dtype != "f" or a.ndim not in (1, 2):
            continue

        def at(st, kind, a=a, g=g):
            return g(st).at((Q,)) if a.ndim == 1 and kind == "t" else g(st).at((Q, I)) if a.ndim == 2 and kind == "y" else None
        for cn, cg in counters:
            position(n, (cn, cg), at)
    for n, l, g in lists:
        def at(st, kind, g=g):
            l = g(st)
            if not l.symbolic and not l.items:
                return True
            v = l.get(Q)
            if isinstance(v, Arr):
                return v.at((I,)) if v.ndim == 1 and kind == "y" else None
            return to_real(v) if isinstance(v, (SR, float)) and kind == "t" else None
        position(n, ("len", lambda st, g=g: dim_expr(g(st).length())), at)
    if f.requests:
        for n, v in loop.state0.locs.items():
            if isinstance(v, SR):
                out["the previous point is before %s" % n] = lambda st, v=v: z3.Or(K() == k0, T(K() - 1) < v.e)
        for bn, b in B.items():
            for cn, cg in counters[1:]:
                def before(st, b=b, cg=cg):
                    i = z3.simplify(cg(st) - 1)
                    ctx().index_term(i)
                    return z3.Or(K() == k0, z3.And(i >= 0, T(K() - 1) < b.at((i,))))

                def upto(st, b=b, cg=cg):
                    i = z3.simplify(cg(st) - 1)
                    ctx().index_term(i)
                    return z3.Or(i < 0, b.at((i,)) <= T(K()))
                def ahead(st, b=b, cg=cg):
                    i, n = z3.simplify(cg(st)), dim_expr(b.shape_[0])
                    ctx().index_term(i)
                    return z3.And(i >= 0, z3.Or(K() == k0, i >= n, T(K() - 1) < b.at((i,))))
                out["the previous point is before %s[%s-1]" % (bn, cn)] = before
                out["the previous point is before %s[%s]" % (bn, cn)] = ahead
                out["%s[%s-1] is reached" % (bn, cn)] = upto
    for extra in f.extra:
        out.update(extra(loop, ints, reals, bools, arrs, lists))
    return out


def value_at(f, t, v):
    """v is component I of the interpolated solution at t, in the step of the integration that contains t."""
    return z3.And(z3.Implies(t <= f.T(f.k0), v == f.V(f.k0, t, I)),
                  z3.Implies(z3.And(NN > f.k0, f.T(NN - 1) < t, t <= f.T(NN)), v == f.V(NN, t, I)))


Flow.limits = ()
Flow.extra = ()
Flow.requests = False


# ---------------------------------------------------------------- step and skip

def advance(method, has_n, has_u):
    def spec():
        c = ctx()
        run = c.run
        s, f = make()
        kw = {}
        N, u = z3.Int("n"), z3.Real("upto_t")
        c.assume(J >= 0)
        c.index_term(J)
        if has_n:
            c.assume(N >= 0)
            kw["n"] = SI(N)
            run.cfg["int_bounds"] = lambda: [("n", N)]
        else:
            run.cfg["int_bounds"] = lambda: []
        if has_u:
            kw["upto_t"] = SR(u)
            f.limits = [("upto_t", u)]
        steps = N if has_n else None if has_u else z3.IntVal(1)
        T, k0 = f.T, f.k0
        how, out = "returned", None
        try:
            out = getattr(s, method)(**kw)
        except ValueError:
            how = "ValueError"
        except RuntimeError:
            how = "RuntimeError"
        kf = f.k.get()
        f.step_term(kf)
        run.cover(how)
        run.record("the solver keeps its objects", same_objects(f), "an attribute was replaced")
        past = u < T(k0) if has_u else z3.BoolVal(False)
        beyond = z3.And(z3.Not(past), u > f.tb.e) if has_u and not infinite(f) else z3.BoolVal(False)
        if how == "ValueError":
            run.prove("ValueError is raised only for a time beyond t_bound", beyond)
            run.prove("a rejected call leaves the solver untouched", kf == k0)
            return
        run.prove("a time beyond t_bound is rejected", z3.Not(beyond))
        if not infinite(f):
            run.prove("the time does not pass t_bound", T(kf) <= f.tb.e)
        if how == "RuntimeError":
            run.record("with upto_t the bound cannot stop it", not has_u, "RuntimeError")
            run.record("without a bound it cannot be stopped", not infinite(f), "RuntimeError")
            if has_u or infinite(f):
                return
            run.prove("RuntimeError only if fewer steps than asked were possible", kf - k0 < steps)
            run.prove("RuntimeError only if the next step would pass t_bound", T(kf) + f.H(kf) > f.tb.e)
            return
        m = z3.simplify(kf - k0)
        if has_u:
            run.prove("an upto_t in the past does nothing", z3.Implies(past, m == 0))
            run.prove("no step ends after upto_t", z3.Implies(m > 0, T(kf) <= u))
            stop = z3.And(T(kf) + f.H(kf) > u)
            if has_n:
                run.prove("at most n steps", m <= N)
                run.prove("it stops after n steps or when the next one would end after upto_t", z3.Or(past, m == N, stop))
            else:
                run.prove("it stops only when the next step would end after upto_t", z3.Or(past, stop))
        else:
            run.prove("exactly n steps", m == steps)
        if method == "skip":
            run.record("skip returns nothing", out is None, str(out))
            return
        ts, ys = out
        ts, ys = Arr.of(ts), Arr.of(ys)
        single = not has_n and not has_u
        if single:
            run.prove("the time of the step is returned", to_real(ts) == T(kf))
            yv = vec(ys)
            run.prove("the state of the step is returned", (yv(I) if ys.ndim == 1 else yv(0, I)) == f.Y(kf, I))
        else:
            run.prove("one time per step", dim_expr(ts.shape_[0]) == m)
            run.prove("one state per step", dim_expr(ys.shape_[0]) == m)
            run.prove("times of the steps in order", z3.Implies(J < m, vec(ts)(J) == T(k0 + 1 + J)))
            # an empty result has no columns when nothing was done
            if ys.ndim == 2:
                run.prove("states have the dimension of the system", dim_expr(ys.shape_[1]) == f.d)
                run.prove("states of the steps in order", z3.Implies(J < m, vec(ys)(J, I) == f.Y(k0 + 1 + J, I)))
            else:
                run.prove("states of the steps in order", m == 0)
        snapshot(run, f, [("times", ts), ("states", ys)])
    return spec


def snapshot(run, f, arrays):
    """Returned arrays do not live in the solver's memory and do not change when it advances (C16)."""
    c = ctx()
    before = [(n, a, vec(a)(*((J, I)[:a.ndim] if a.ndim != 1 or n != "state" else (I,)))) for n, a in arrays]
    keep = f.k.get()
    f.k.set(c.int("later"))
    for n, a, v in before:
        now = vec(a)(*((J, I)[:a.ndim] if a.ndim != 1 or n != "state" else (I,)))
        inside = z3.And(J >= 0, J < dim_expr(a.shape_[0])) if a.ndim and n != "state" else z3.BoolVal(True)
        run.prove("returned %s do not change when the solver advances" % n, z3.Implies(inside, v == now))
        run.record("returned %s are not the solver's memory" % n, not isinstance(a.st, LiveStorage), "a view of %s" % a.st.name)
    f.k.set(keep)


CFG = dict(candidates=domain, loop_limit=0)

for meth in ("step", "skip"):
    for n, u in ((0, 0), (1, 0), (0, 1), (1, 1)):
        nm = "%s(%s)" % (meth, ", ".join((["n"] if n else []) + (["upto_t"] if u else [])))
        cov = ("returned",) + (("ValueError",) if u else ("RuntimeError",))
        for p in ("C07", "C08", "C10", "C16", "C17"):
            add(p, nm, advance(meth, n, u), covers=cov, **CFG)


# ---------------------------------------------------------------- run

def request(scalar):
    """The times asked for: (argument, number, content)"""
    c = ctx()
    if scalar:
        t = z3.Real("t")
        return SR(t), 1, lambda i: t
    M = z3.Int("M")
    c.assume(M >= 1)
    tf = z3.Function("t", INT, REAL)
    a = Arr.new((M,), lambda idx: tf(dim_expr(idx[0])), "f", "t")
    register_sequence("t", tf)
    return a, M, tf


def runs(scalar, call, finite=None):
    def spec():
        c = ctx()
        run = c.run
        s, f = make(None if finite is None else bound(finite))
        f.requests = True
        arg, M, tf = request(scalar)
        run.cfg["int_bounds"] = lambda: []
        c.index_term(J)
        c.assume(z3.And(J >= 0, J < M))
        T, k0 = f.T, f.k0
        lo = T(k0 - f.L + 1)
        f.step_term(k0 - f.L + 1)
        before = vec(arg) if not scalar else None
        how, out = "returned", None
        try:
            out = call(s, arg)
        except ValueError:
            how = "ValueError"
        except RuntimeError:
            how = "RuntimeError"
        run.cover(how)
        kf = f.k.get()
        f.step_term(kf)
        for p1, q1, n1 in getattr(c, "perms", []):
            c.index_term(q1(J))
        run.record("the solver keeps its objects", same_objects(f), "an attribute was replaced")
        if not scalar:
            run.prove("the requested times are not modified", before(J) == tf(J))
        if not infinite(f):
            run.prove("the time does not pass t_bound", T(kf) <= f.tb.e)
        bad = lambda i: z3.Or(tf(i) < lo, z3.BoolVal(False) if infinite(f) else tf(i) > f.tb.e)
        if how == "ValueError":
            some(run, "ValueError only if a time is before the history or beyond t_bound", M, bad)
            run.prove("a rejected call leaves the solver untouched", kf == k0)
            return
        run.prove("a time before the history or beyond t_bound is rejected", z3.Not(bad(J)))
        if how == "RuntimeError":
            run.record("without a bound it cannot be stopped", not infinite(f), "RuntimeError")
            if not infinite(f):
                some(run, "RuntimeError only if a requested time was not reached", M, lambda i: tf(i) > T(kf))
                run.prove("RuntimeError only if the next step would pass t_bound", T(kf) + f.H(kf) > f.tb.e)
            return
        ts, ys = Arr.of(out[0]), Arr.of(out[1])
        run.prove("as many times as requested", dim_expr(ts.shape_[0]) == M)
        run.prove("as many states as times", dim_expr(ys.shape_[0]) == M)
        run.prove("every requested time is reached", tf(J) <= T(kf))
        if not run.entails_any([kf == k0]):
            some(run, "the solver does not advance further than needed", M, lambda i: T(kf - 1) < tf(i), kf == k0)
        if ts.ndim == 1:
            run.prove("the times are those requested, in their order", vec(ts)(J) == tf(J))
        else:
            run.record("the times are a vector", False, "rank %d" % ts.ndim)
        if ys.ndim == 2:
            run.prove("states have the dimension of the system", dim_expr(ys.shape_[1]) == f.d)
            v = vec(ys)(J, I)
            run.prove("a time within the history is interpolated in it", z3.Implies(tf(J) <= T(k0), v == f.V(k0, tf(J), I)))
            run.prove("a later time is interpolated in the step that contains it",
                      z3.Implies(z3.And(NN > k0, T(NN - 1) < tf(J), tf(J) <= T(NN)), v == f.V(NN, tf(J), I)))
        else:
            run.record("one state vector per time", False, "rank %d" % ys.ndim)
        snapshot(run, f, [("times", ts), ("states", ys)])
        if not scalar:
            run.record("returned times are not the caller's array", ts.st is not arg.st, "the same memory")
    return spec


def some(run, name, n, p, unless=False):
    """Obligation: p(i) for some position i of the request (witness: any index the execution looked at)."""
    if not run.proving:
        return
    c = ctx()
    goal = lambda ts: z3.Or([lift_bool(unless)] + [z3.And(t >= 0, t < n, p(t)) for t in ts])
    c.index_term(0)
    terms = list(c.index_terms.values())
    if getattr(c, "perms", []) and not c.entails(goal(terms)):
        terms += [g(t) for p1, q1, n1 in c.perms for t in terms for g in (p1, q1)]
        for t in terms:
            c.index_term(t)
    run.prove(name, goal(terms))


Run.entails_any = lambda self, es: any(ctx().entails(e) for e in es)

CALLS = {"run": lambda s, t: s.run(t), "run_events without events": lambda s, t: s.run_events(t, None)}
for nm, call in CALLS.items():
    for p in ("C07", "C09", "C10", "C16", "C17") if nm == "run" else ("C09",):
        add(p, nm + "(number)", runs(True, call), covers=("returned", "ValueError", "RuntimeError"), weight=2, **CFG)
        for finite in (True, False):
            add(p, nm + "(array), %s t_bound" % ("finite" if finite else "no"), runs(False, call, finite),
                covers=("returned", "ValueError") + (("RuntimeError",) if finite else ()), weight=9, **CFG)
