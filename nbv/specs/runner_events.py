"""run_events with events, over an abstract trajectory and the contract of the event handler: C13, C15 (and C07, C09, C16, C17)."""
import warnings
from .common import *
from ..engine import Q
from ..npshim import guard, pairwise, real_of, register_sequence
from .runner import value_at, CFG, INT, J, Model, NN, REAL, bound, infinite, make, request, same_objects, snapshot, some
from ..tasks import add

EV = sys.modules["nbkode.event_handler"]


class Entry:
    """What the handler's watchers expose: their recorded times and states."""

    def __init__(self, i, d):
        self.t = [SR(z3.Real("te%d_%d" % (i, j))) for j in range(i)]
        self.y = [sym_vec("ye%d_%d" % (i, j), d) for j in range(i)]


class Handler:
    """Contract of EventHandler (C13, C15 class level): to be evaluated once after every step; after a
    step in which a terminal event triggers it returns True and last_event is the earliest terminal
    crossing, a time within the step with a copy of the interpolated solution there."""

    def __init__(self, f):
        c = ctx()
        self.f = f
        self.term = z3.Function("terminates", INT, z3.BoolSort())
        self.tl = z3.Function("crossing", INT, REAL)
        self.seen = Cell("seen", f.k0)
        self.events = [Entry(i, f.d) for i in range(3)]
        self.terms = set()

    def fact(self, k):
        k = z3.simplify(k)
        if k.get_id() not in self.terms:
            self.terms.add(k.get_id())
            f = self.f
            f.step_term(k)
            f.step_term(z3.simplify(k - 1))
            ctx().assume(z3.Implies(z3.And(k > f.k0, self.term(k)), z3.And(f.T(k - 1) <= self.tl(k), self.tl(k) <= f.T(k))))

    def evaluate(self, interpolate, rhs, cache, *args):
        f, run = self.f, ctx().run
        k = f.k.get()
        self.fact(k)
        run.prove("the events are evaluated after every step, once", k == self.seen.get() + 1)
        run.record("the events watch the solver's own history", cache is f.cache, "another object")
        run.record("the events see the solver's own rhs", rhs is f.rhs, "another object")
        run.record("the events see the solver's own interpolation", interpolate is f.solver._interpolate, "another function")
        want = f.solver._step_args
        run.record("the events get the solver's arguments", (rhs, cache) + tuple(args) == tuple(want) if len(args) + 2 == len(want) else False, "other arguments")
        self.seen.set(k)
        return SB(self.term(k))

    @property
    def last_event(self):
        f = self.f
        k = f.k.get()
        self.fact(k)
        t = self.tl(k)
        return SR(t), Arr.new((f.d,), lambda idx: f.V(k, t, dim_expr(idx[0])), "f", "crossing state")


def extra(w):
    """Loop invariants about the watchers."""
    f = w.f

    def cands(loop, ints, reals, bools, arrs, lists):
        out = {}
        K = lambda: f.k.get()
        out["every step was watched"] = lambda st: w.seen.get() == K()
        out["no termination before step [Q]"] = lambda st: z3.Implies(z3.And(Q > f.k0, Q <= K()), z3.Not(w.term(Q)))
        out["no termination in the last step"] = lambda st: z3.Or(K() == f.k0, z3.Not(w.term(K())))
        out["no termination before step N"] = lambda st: z3.Implies(z3.And(NN > f.k0, NN <= K()), z3.Not(w.term(NN)))
        # positions filled after the termination was seen: all before it
        from .runner import times_in_scope
        B = times_in_scope(loop)
        for bn, b in B.items():
            for cn, _, cg in ints:
                out["%s[Q] before the crossing for Q < %s [Q]" % (bn, cn)] = \
                    lambda st, b=b, cg=cg: z3.Implies(z3.And(Q >= 0, Q < cg(st)), b.at((Q,)) <= w.tl(K()))
                out["%s[Q] strictly before the crossing or by the last step for Q < %s [Q]" % (bn, cn)] = \
                    lambda st, b=b, cg=cg: z3.Implies(z3.And(Q >= 0, Q < cg(st)), z3.Or(b.at((Q,)) < w.tl(K()), b.at((Q,)) <= f.T(K() - 1)))
        return out
    return cands


def sorted_request():
    """An array of M >= 0 times in ascending order, owned by the callee."""
    c = ctx()
    M = z3.Int("M")
    c.assume(M >= 0)
    tf = z3.Function("t", INT, REAL)
    register_sequence("t", tf)
    pairwise(lambda i, j: z3.Implies(z3.And(i >= 0, i <= j, j < M), tf(i) <= tf(j)))
    return Arr.new((M,), lambda idx: tf(dim_expr(idx[0])), "f", "t"), M, tf


def driver(finite):
    """_run_eval_events against its contract (see Driver)."""
    def spec():
        c = ctx()
        run = c.run
        s, f = make(bound(finite))
        f.requests = True
        w = Handler(f)
        f.extra = [extra(w)]
        arg, M, tf = sorted_request()
        run.cfg["int_bounds"] = lambda: []
        c.index_term(J)
        c.assume(z3.And(J >= 0, J < M))
        T, k0 = f.T, f.k0
        # what the caller checked: the times asked are within the history or later, none beyond t_bound
        lo = T(k0 - f.L + 1)
        f.step_term(k0 - f.L + 1)
        c.universal(lambda i: z3.Implies(guard(i, M), z3.And(lo <= tf(i), z3.BoolVal(True) if infinite(f) else tf(i) <= f.tb.e)))
        ts, ys, scon = s._run_eval_events(f.tb, arg, s._step, w, s._interpolate, *s._step_args)
        kf = f.k.get()
        f.step_term(kf)
        w.fact(kf)
        if not infinite(f):
            run.prove("the time does not pass t_bound", T(kf) <= f.tb.e)
        run.prove("every step was watched", w.seen.get() == kf)
        run.prove("nothing is done after a termination", z3.Implies(z3.And(NN > k0, NN < kf), z3.Not(w.term(NN))))
        done = z3.And(kf > k0, w.term(kf))
        if c.decide(lift_bool(scon)):
            run.cover("stopped")
            run.record("without a bound it cannot be stopped", not infinite(f), "stopped")
            if not infinite(f):
                some(run, "stopped only if a requested time was not reached", M, lambda i: tf(i) > T(kf))
                run.prove("stopped only if the next step would pass t_bound", T(kf) + f.H(kf) > f.tb.e)
            run.prove("stopped only without a termination", z3.Not(done))
            return
        ts, ys = Arr.of(ts), Arr.of(ys)
        n = dim_expr(ts.shape_[0])
        run.record("the times are a vector", ts.ndim == 1, "rank %d" % ts.ndim)
        run.record("one state vector per time", ys.ndim == 2, "rank %d" % ys.ndim)
        if ts.ndim != 1 or ys.ndim != 2:
            return
        run.prove("as many states as times", dim_expr(ys.shape_[0]) == n)
        run.prove("states have the dimension of the system", dim_expr(ys.shape_[1]) == f.d)
        t = vec(ts)
        v = lambda i: vec(ys)(i, I)
        if not run.entails_any([kf == k0]):
            some(run, "it does not advance further than needed", M, lambda i: T(kf - 1) < tf(i), kf == k0)
        if not c.decide(done):
            run.cover("no termination")
            run.prove("as many times as requested", n == M)
            run.prove("every requested time is reached", tf(J) <= T(kf))
            run.prove("the times are those requested", t(J) == tf(J))
            run.prove("the states are the solution at these times", value_at(f, tf(J), v(J)))
        else:
            run.cover("terminated")
            tl = w.tl(kf)
            c.index_term(n - 1)
            run.prove("no more times than requested", z3.And(n >= 1, n <= M))
            run.prove("positions before the last hold the times requested, up to the crossing",
                      z3.Implies(J < n - 1, z3.And(t(J) == tf(J), tf(J) <= tl, value_at(f, tf(J), v(J)))))
            end = z3.And(t(n - 1) == tl, v(n - 1) == f.V(kf, tl, I), tf(n - 1) >= tl)
            run.prove("the last position holds the crossing, or a time before it if none is later",
                      z3.Or(end, z3.And(n == M, t(n - 1) == tf(n - 1), tf(n - 1) < tl, value_at(f, tf(n - 1), v(n - 1)))))
    return spec


class Driver:
    """Contract of _run_eval_events, proved by the tasks above: for times in ascending order (an array
    the callee may overwrite), from any state and handler."""

    def __init__(self, w):
        self.w = w

    def __call__(self, t_bound, t_eval, step, handler, interpolate, *args):
        w = self.w
        f, c = w.f, ctx()
        run, s = c.run, f.solver
        a = Arr.of(t_eval)
        T, k0 = f.T, f.k.get()
        M = dim_expr(a.shape_[0])
        read = a.snap()
        tf = lambda i: real_of(read((i,)), a.st.dtype)
        run.prove("the driver is called with the bound of the solver", to_real(t_bound) == f.tb.e if not infinite(f) else z3.BoolVal(t_bound == f.tb))
        run.record("the driver is called with the solver's functions", step is s._step and interpolate is s._interpolate and handler is w, "others")
        want = s._step_args
        run.record("the driver is called with the solver's arguments", len(args) == len(want) and all(x is y for x, y in zip(args, want)), "others")
        g = c.int("g")
        with c.scratch():
            c.index_term(g)
            c.index_term(z3.simplify(g + 1))
            run.prove("the times to run are in ascending order", z3.Implies(z3.And(g >= 0, g + 1 < M), tf(g) <= tf(g + 1)))
            lo = T(k0 - f.L + 1)
            f.step_term(k0 - f.L + 1)
            run.prove("the times to run are not before the history", z3.Implies(guard(g, M), lo <= tf(g)))
            if not infinite(f):
                run.prove("the times to run are not beyond t_bound", z3.Implies(guard(g, M), tf(g) <= f.tb.e))
        run.record("the times to run are not the caller's array", f.request is None or a.st is not f.request.st, "the same memory")
        kf = c.int("kf")
        c.assume(kf >= k0)
        f.step_term(kf)
        f.k.set(kf)
        w.seen.set(kf)
        w.fact(kf)
        if not infinite(f):
            c.assume(T(kf) <= f.tb.e)
        c.assume(z3.Implies(z3.And(NN > k0, NN < kf), z3.Not(w.term(NN))))
        done = z3.And(kf > k0, w.term(kf))
        wit = c.int("late")
        empty = Arr.new((0, f.d), lambda idx: z3.RealVal(0), "f", "nothing")
        if not infinite(f) and c.choose("stopped"):
            c.assume(z3.And(z3.Not(done), guard(wit, M), tf(wit) > T(kf), T(kf) + f.H(kf) > f.tb.e))
            c.index_term(wit)
            return a, empty, True
        if c.choose("advanced"):
            c.assume(z3.And(kf > k0, guard(wit, M), T(kf - 1) < tf(wit)))
            c.index_term(wit)
        else:
            c.assume(kf == k0)

        def state(t):
            """the solution at t, as far as it is determined"""
            junk = f.junk(t, I)
            return z3.If(t <= T(f.k0), f.V(f.k0, t, I), z3.If(z3.And(NN > f.k0, T(NN - 1) < t, t <= T(NN)), f.V(NN, t, I), junk))
        if not c.decide(done):
            c.universal(lambda i: z3.Implies(guard(i, M), tf(i) <= T(kf)))
            ys = Arr.new((M, f.d), lambda idx: self.comp(idx, state(tf(dim_expr(idx[0])))), "f", "states")
            return a, ys, False
        tl = w.tl(kf)
        n = c.int("n")
        c.assume(z3.And(n >= 1, n <= M))
        c.index_term(z3.simplify(n - 1))
        end = c.bool("ends")
        c.assume(z3.If(end, tf(n - 1) >= tl, z3.And(n == M, tf(n - 1) < tl)))
        c.universal(lambda i: z3.Implies(z3.And(i >= 0, i < n - 1), tf(i) <= tl))
        at_end = lambda i: z3.And(end, i == n - 1)
        ts = Arr.new((n,), lambda idx: z3.If(at_end(dim_expr(idx[0])), tl, tf(dim_expr(idx[0]))), "f", "times")
        ys = Arr.new((n, f.d), lambda idx: self.comp(idx, z3.If(at_end(dim_expr(idx[0])), f.V(kf, tl, I), state(tf(dim_expr(idx[0]))))), "f", "states")
        return ts, ys, False

    def comp(self, idx, e):
        return z3.substitute(e, (I, dim_expr(idx[1])))


def runs(scalar, finite, given, modular=False, order=None):
    """given: the argument passed as events (a callable or a list)."""
    def spec():
        c = ctx()
        run = c.run
        s, f = make(bound(finite))
        f.requests = True
        w = Handler(f)
        f.extra = [extra(w)]
        arg, M, tf = request(scalar)
        run.cfg["int_bounds"] = lambda: []
        c.index_term(J)
        c.assume(z3.And(J >= 0, J < M))
        if order == "ascending":
            pairwise(lambda i, j: z3.Implies(z3.And(i >= 0, i <= j, j < M), tf(i) <= tf(j)))
            c.universal(lambda i: z3.Implies(z3.And(i >= 0, i + 1 < M), tf(i) <= tf(i + 1)))
        elif order == "not ascending":
            D = z3.Int("descent")
            c.index_term(D)
            c.index_term(D + 1)
            c.assume(z3.And(D >= 0, D + 1 < M, tf(D) > tf(D + 1)))
        T, k0 = f.T, f.k0
        lo = T(k0 - f.L + 1)
        f.step_term(k0 - f.L + 1)
        before = vec(arg) if not scalar else None
        events = given()
        built = []

        def build(ev, t, y):
            built.append(1)
            run.record("the watchers get the events given", ev is events, "another object")
            run.prove("the watchers start from the state at the time of the call", z3.And(to_real(t) == T(k0), vec(y)(I) == f.Y(k0, I), f.k.get() == k0))
            return w
        how, out = "returned", None
        f.request = None if scalar else arg
        f.junk = z3.Function("undetermined", REAL, INT, REAL)
        own = "_run_eval_events"
        with contracts({EV.build_handler: build}), warnings.catch_warnings():
            if modular and own in vars(type(s).__mro__[1]):
                setattr(Model, own, staticmethod(Driver(w)))
            warnings.simplefilter("ignore")
            try:
                out = s.run_events(arg, events)
            except ValueError:
                how = "ValueError"
            except RuntimeError:
                how = "RuntimeError"
            finally:
                if own in vars(Model):
                    delattr(Model, own)
        run.cover(how)
        kf = f.k.get()
        f.step_term(kf)
        w.fact(kf)
        perms = getattr(c, "perms", [])
        for p1, q1, n1 in perms:
            c.index_term(q1(J))
        run.record("the solver keeps its objects", same_objects(f), "an attribute was replaced")
        if not scalar:
            run.prove("the requested times are not modified", before(J) == tf(J))
        if not infinite(f):
            run.prove("the time does not pass t_bound", T(kf) <= f.tb.e)
        bad = lambda i: z3.Or(tf(i) < lo, z3.BoolVal(False) if infinite(f) else tf(i) > f.tb.e)
        if how == "ValueError":
            some(run, "ValueError only if a time is before the history or beyond t_bound", M, bad)
            run.prove("a rejected call leaves the solver untouched", kf == k0)
            return
        run.prove("a time before the history or beyond t_bound is rejected", z3.Not(bad(J)))
        run.record("the watchers are built once", len(built) == 1, "%d times" % len(built))
        run.prove("every step was watched", w.seen.get() == kf)
        run.prove("nothing is done after a termination", z3.Implies(z3.And(NN > k0, NN < kf), z3.Not(w.term(NN))))
        if how == "RuntimeError":
            run.record("without a bound it cannot be stopped", not infinite(f), "RuntimeError")
            if not infinite(f):
                some(run, "RuntimeError only if a requested time was not reached", M, lambda i: tf(i) > T(kf))
                run.prove("RuntimeError only if the next step would pass t_bound", T(kf) + f.H(kf) > f.tb.e)
            run.prove("RuntimeError only without a termination", z3.Or(kf == k0, z3.Not(w.term(kf))))
            return
        ts, ys = Arr.of(out[0]), Arr.of(out[1])
        n = dim_expr(ts.shape_[0])
        run.record("the times are a vector", ts.ndim == 1, "rank %d" % ts.ndim)
        run.record("one state vector per time", ys.ndim == 2, "rank %d" % ys.ndim)
        if ts.ndim != 1 or ys.ndim != 2:
            return
        run.prove("as many states as times", dim_expr(ys.shape_[0]) == n)
        run.prove("states have the dimension of the system", dim_expr(ys.shape_[1]) == f.d)
        te, ye = out[2], out[3]
        run.record("one list of crossings per event", len(te) == 3 and len(ye) == 3, "%d, %d" % (len(te), len(ye)))
        for e, a, b in zip(w.events, te, ye):
            run.record("the crossings reported are those recorded", [x for x in a] == e.t and len(list(b)) == len(e.y) and all(x is z for x, z in zip(b, e.y)), "others")
        done = z3.And(kf > k0, w.term(kf))
        v = lambda i: vec(ys)(i, I)
        t = vec(ts)
        with_parts = (t(J), v(J))     # index terms of the parts that position J of the result comes from

        def right(i, x):
            """state i is the solution at x, interpolated where it belongs"""
            return z3.And(z3.Implies(x <= T(k0), v(i) == f.V(k0, x, I)),
                          z3.Implies(z3.And(NN > k0, T(NN - 1) < x, x <= T(NN)), v(i) == f.V(NN, x, I)))
        if not c.decide(done):
            run.cover("no termination")
            run.prove("as many times as requested", n == M)
            run.prove("every requested time is reached", tf(J) <= T(kf))
            if not run.entails_any([kf == k0]):
                some(run, "the solver does not advance further than needed", M, lambda i: T(kf - 1) < tf(i), kf == k0)
            run.prove("the times are those requested, in their order", t(J) == tf(J))
            run.prove("the states are the solution at these times", right(J, tf(J)))
        else:
            run.cover("terminated")
            tl = w.tl(kf)
            run.prove("no more times than requested", n <= M)
            some(run, "the solver does not advance further than needed", M, lambda i: T(kf - 1) < tf(i))
            is_end = lambda i: z3.And(t(i) == tl, v(i) == f.V(kf, tl, I))
            if not perms:
                run.prove("times before the crossing are returned, in their order", z3.Implies(tf(J) < tl, z3.And(J < n, t(J) == tf(J))))
                run.prove("with the solution at these times", z3.Implies(tf(J) < tl, right(J, tf(J))))
                run.prove("the crossing replaces the later times: it is the last one", z3.Implies(tf(J) > tl, z3.And(n >= 1, is_end(n - 1))))
                run.prove("nothing after the crossing is returned", z3.Implies(z3.And(tf(J) > tl, J < n), J == n - 1))
                run.prove("a time at the crossing gives the crossing", z3.Implies(z3.And(tf(J) == tl, J < n), t(J) == tl))
            else:
                some_of(run, "times before the crossing are returned, with the solution there", n, lambda i: z3.And(t(i) == tf(J), right(i, tf(J))), z3.Not(tf(J) < tl))
                c.index_term(J)
                some_of(run, "only times before the crossing, and the crossing, are returned", M,
                        lambda i: z3.Or(is_end(J), z3.And(t(J) == tf(i), z3.Or(tf(i) <= tl, t(J) <= T(k0)))), z3.Not(J < n))
                some_of(run, "the crossing is returned if a later time was requested", n, is_end, z3.Not(tf(J) > tl))
        snapshot(run, f, [("times", ts), ("states", ys)])
        if not scalar:
            run.record("returned times are not the caller's array", ts.st is not arg.st, "the same memory")
    return spec


def some_of(run, name, n, p, unless):
    """p(i) for some i < n, by witnesses: the index terms and their images under the permutations."""
    if not run.proving:
        return
    c = ctx()
    fwd, back, end = J, J, n - 1
    terms = [J]
    for p1, q1, n1 in getattr(c, "perms", []):
        back, end = q1(back), q1(end)
        terms += [back, q1(n - 1), end]
    for p1, q1, n1 in reversed(getattr(c, "perms", [])):
        fwd = p1(fwd)
        terms += [fwd]
    for t in terms:
        c.index_term(t)
    run.prove(name, z3.Or([unless] + [z3.And(t >= 0, t < n, p(t)) for t in terms]))


def one(t, y):
    return 0.0


for p in ("C13", "C15"):
    add(p, "run_events(number, event)", runs(True, True, lambda: one), covers=("returned", "ValueError", "RuntimeError", "terminated", "no termination"), weight=4, **CFG)
    for finite in (True, False):
        nm = "finite" if finite else "no"
        add(p, "_run_eval_events, %s t_bound" % nm, driver(finite), covers=("terminated", "no termination") + (("stopped",) if finite else ()), weight=9, **CFG)
        for order in ("ascending", "not ascending"):
            add(p, "run_events(array, events), %s t_bound, %s" % (nm, order), runs(False, finite, lambda: [one, one], True, order),
                covers=("returned", "ValueError", "terminated", "no termination") + (("RuntimeError",) if finite else ()), weight=9, **CFG)
