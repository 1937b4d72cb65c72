"""Events: C14 (bisect), C13 (one event over a step; the handler; build_handler), parts of C15 and C16."""
import sys
from .common import *
from ..tasks import add

nb = load()
EV = sys.modules["nbkode.event_handler"]
ZEROS = sys.modules["nbkode.nbcompat.zeros"]
BUFFER = sys.modules["nbkode.buffer"]


# ---------------------------------------------------------------- C14: bisect

def opposite(x, y):
    return z3.Or(z3.And(x < 0, y > 0), z3.And(y < 0, x > 0))


class Bisection:
    """An arbitrary function on an arbitrary interval, and the ghost widths D(k) = (right - left)/2**k."""

    def __init__(self):
        c = ctx()
        self.left, self.right, self.tol, self.rtol = z3.Reals("left right tol rtol")
        self.n = z3.Int("maxiter")
        c.assume(z3.And(self.tol >= 0, self.rtol >= 0, self.n >= 1))
        self.G = z3.Function("Gx", z3.RealSort(), z3.RealSort())
        self.D = z3.Function("D", z3.IntSort(), z3.RealSort())
        c.assume(self.D(0) == self.right - self.left)
        self.marker = object()
        self.pairs, self.points = [], []
        if c.run.bounded:
            for k in range(6):
                self.width(z3.IntVal(k))

    def fun(self, x, *args):
        run = ctx().run
        run.record("the extra arguments are passed on", len(args) == 1 and args[0] is self.marker, "%d extra arguments" % len(args))
        self.points.append(to_real(x))
        return SR(self.G(to_real(x)))

    def ends(self):
        """Candidate ends of the last sub-interval: the values of the loop's variables, the points evaluated."""
        pts = list({p.get_id(): p for p in [self.left, self.right] + self.points[-6:]}.values())
        return self.pairs + [(a, b) for a in pts for b in pts if a is not b]

    def width(self, k):
        """D(k), with its definition at k-1 and k."""
        c = ctx()
        k = z3.simplify(k)
        c.assume(z3.Implies(k >= 0, 2 * self.D(z3.simplify(k + 1)) == self.D(k)))
        c.assume(z3.Implies(k >= 1, 2 * self.D(k) == self.D(z3.simplify(k - 1))))
        return self.D(k)

    def candidates(self, loop, ints, reals, bools, arrs, lists):
        G, out = self.G, {}
        for n, _, g in reals:
            out["%s within the interval" % n] = lambda st, g=g: z3.And(g(st) >= self.left, g(st) <= self.right)
            out["%s on the side of the left end" % n] = lambda st, g=g: z3.And((G(g(st)) < 0) == (G(self.left) < 0), G(g(st)) != 0)
            out["%s on the side of the right end" % n] = lambda st, g=g: z3.And((G(g(st)) < 0) == (G(self.right) < 0), G(g(st)) != 0)
            for n2, _, g2 in reals:
                if n != n2:
                    out["%s == fun(%s)" % (n, n2)] = lambda st, g=g, g2=g2: g(st) == G(g2(st))
                    out["%s < %s and a sign change between" % (n, n2)] = lambda st, g=g, g2=g2: z3.And(g(st) < g2(st), opposite(G(g(st)), G(g2(st))))
                    for m, _, k in ints:
                        out["%s - %s == D(%s)" % (n2, n, m)] = lambda st, g=g, g2=g2, k=k: g2(st) - g(st) == self.width(k(st))

        def record(st):
            self.pairs = [(g(st), g2(st)) for n, _, g in reals for n2, _, g2 in reals if n != n2]
            return z3.BoolVal(True)
        out["values at this point"] = record
        return out


def bisect_spec(defaults):
    def spec():
        c = ctx()
        run = c.run
        B = Bisection()
        run.candidates = run.cfg["candidates"] = B.candidates
        kw = dict(args=(B.marker,))
        if not defaults:
            kw.update(tol=SR(B.tol), maxiter=SI(B.n), rtol=SR(B.rtol))
        else:
            kw.update(maxiter=SI(B.n))
            c.assume(B.tol == to_real(1.48e-8))
        yl, yr = B.G(B.left), B.G(B.right)
        bad = z3.Or(B.left >= B.right, z3.And(yl > 0, yr > 0), z3.And(yl < 0, yr < 0))
        try:
            r = ZEROS.bisect(B.fun, SR(B.left), SR(B.right), **kw)
        except ValueError:
            run.cover("rejected")
            run.prove("ValueError only without a sign change or with an empty interval", bad)
            return
        run.cover("returned")
        r = to_real(r)
        run.prove("ValueError if there is no sign change or the interval is empty", z3.Not(bad))
        run.prove("the point is within the interval", z3.And(r >= B.left, r <= B.right))
        run.prove("a zero at the left end is returned", z3.Implies(yl == 0, r == B.left))
        run.prove("a zero at the right end is returned", z3.Implies(z3.And(yl != 0, yr == 0), r == B.right))
        run.prove("otherwise the point is strictly inside", z3.Implies(z3.And(yl != 0, yr != 0), z3.And(r > B.left, r < B.right)))
        if c.entails(z3.Or(B.G(r) == 0, z3.And(B.G(r) <= B.tol, -B.G(r) <= B.tol))):
            run.prove("the function is zero within the tolerance", z3.And(B.G(r) <= B.tol, -B.G(r) <= B.tol))
            return
        run.cover("returned after maxiter bisections")
        run.prove("the point is an end of a sub-interval with a sign change of width (right - left)/2**maxiter",
                  z3.Or([z3.BoolVal(False)] + [z3.And(z3.Or(r == a, r == b), a < b, b - a == B.width(B.n), a >= B.left, b <= B.right, opposite(B.G(a), B.G(b)))
                                               for a, b in B.ends()]))
    return spec


add("C14", "bisect (any tolerance)", bisect_spec(False), covers=("rejected", "returned", "returned after maxiter bisections"), loop_limit=1)
add("C14", "bisect (default tolerance)", bisect_spec(True), covers=("rejected", "returned"), loop_limit=1)


# ---------------------------------------------------------------- C13: one event over a step

class EventFunction:
    """The user's event function: any deterministic function of (t, y)."""

    def __init__(self, d, name="E"):
        self.d, self.name = d, name

    def value(self, t, y):
        return reify(self.name, (t,), y, self.d, lambda: ctx().real("g"))

    def __call__(self, t, y):
        a = Arr.of(y)
        if a.ndim != 1:
            raise ValueError("event function called with an array of rank %d" % a.ndim)
        return SR(self.value(to_real(t), vec(a)))


class Track:
    """Successive points of an integration in the real history buffer, and the interpolated solution."""

    def __init__(self, d):
        c = ctx()
        self.d, self.k = d, 0
        self.T = [z3.Real("T0")]
        self.Y = [z3.Function("Y0", z3.IntSort(), z3.RealSort())]
        self.rhs = Rhs(d)
        self.h = object()
        self.cache = BUFFER.AlignedBuffer(2, SR(self.T[0]), sym_vec("Y0", d), sym_vec("F0", d))
        self.views = []

    def advance(self):
        c = ctx()
        self.k += 1
        k = self.k
        self.T.append(z3.Real("T%d" % k))
        self.Y.append(z3.Function("Y%d" % k, z3.IntSort(), z3.RealSort()))
        c.assume(self.T[k] > self.T[k - 1])
        self.cache.push(SR(self.T[k]), sym_vec("Y%d" % k, self.d), sym_vec("F%d" % k, self.d))

    def solution(self, t):
        """closure: the interpolated solution at t in the last step"""
        k, c = self.k, ctx()
        if c.decide(t == self.T[k]):
            return self.Y[k]
        if k and c.decide(t == self.T[k - 1]):
            return self.Y[k - 1]
        V = z3.Function("V%d" % k, z3.RealSort(), z3.IntSort(), z3.RealSort())
        return lambda i: V(t, i)

    def interpolate(self, t, rhs, cache, *args):
        run = ctx().run
        t = to_real(t)
        run.record("interpolation gets the solver's rhs, cache and arguments", rhs is self.rhs and cache is self.cache and len(args) == 1 and args[0] is self.h,
                   "other arguments")
        run.prove("interpolation is asked within the last step", z3.And(t >= self.T[max(self.k - 1, 0)], t <= self.T[self.k]))
        s = self.solution(t)
        r = Arr.new((self.d,), lambda idx: s(dim_expr(idx[0])), "f", "view")
        self.views.append(r)      # the worst case: a view of memory that later steps overwrite
        return r

    def overwrite(self):
        junk = z3.Function("junk", z3.IntSort(), z3.RealSort())
        for v in self.views:
            v[...] = sym_vec("junk", self.d)
        self.views = []


class BisectContract:
    """Contract of zeros.bisect as proved for C14."""

    def __init__(self, track, func):
        self.track, self.func, self.calls = track, func, []

    def __call__(self, fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):
        c, tr = ctx(), self.track
        run = c.run
        l, r = to_real(left), to_real(right)
        run.prove("bisect is asked about the last step", z3.And(l == tr.T[tr.k - 1], r == tr.T[tr.k]))
        run.record("bisect is asked for at least the default accuracy", is_num(tol) and tol <= 1.48e-8 and is_num(maxiter) and maxiter >= 50 and is_num(rtol) and rtol == 0,
                   "tol=%s maxiter=%s rtol=%s" % (tol, maxiter, rtol))
        gl, gr = to_real(fun(SR(l), *args)), to_real(fun(SR(r), *args))
        x = c.real("inner")
        c.assume(z3.And(x > l, x < r))
        gx = to_real(fun(SR(x), *args))
        run.prove("bisect is applied to the event function along the solution",
                  z3.And(gl == self.func.value(l, tr.Y[tr.k - 1]), gr == self.func.value(r, tr.Y[tr.k]), gx == self.func.value(x, tr.solution(x))))
        run.prove("bisect is called with a sign change", z3.Not(z3.Or(z3.And(gl > 0, gr > 0), z3.And(gl < 0, gr < 0))))
        root = l if c.decide(gl == 0) else r if c.decide(gr == 0) else x
        self.calls.append(root)
        return SR(root)

    def contracts(self):
        return contracts({ZEROS.bisect: self})


def entries(ev):
    ts, ys = ev.t, ev.y
    return [(to_real(ts[i]), vec(ys[i])) for i in range(count(ts))], count(ys)


def count(l):
    n = l.length() if isinstance(l, SList) else len(l)
    return n if isinstance(n, int) else z3.simplify(n).as_long()


def same_entry(a, b):
    return z3.And(a[0] == b[0], a[1](I) == b[1](I))


def one_event(direction):
    def spec():
        c = ctx()
        run = c.run
        d = dimension()
        tr = Track(d)
        g = EventFunction(d)
        terminal = bool(c.choose("terminal"))
        bc = BisectContract(tr, g)
        gv = [g.value(tr.T[0], tr.Y[0])]
        recorded_at_end = z3.BoolVal(False)
        with bc.contracts():
            ev = EV.Event(g, terminal, direction, SR(tr.T[0]), Arr.of(tr.cache.y))
            run.record("no entries before the first step", entries(ev)[0] == [] and entries(ev)[1] == 0, "entries")
            for k in (1, 2):
                before = entries(ev)[0]
                tr.advance()
                bc.calls.clear()
                gv.append(g.value(tr.T[k], tr.Y[k]))
                ret = ev.evaluate(tr.interpolate, tr.rhs, tr.cache, tr.h)
                a, b = gv[k - 1], gv[k]
                up, down = z3.And(a <= 0, b >= 0), z3.And(a >= 0, b <= 0)
                trig = up if direction > 0 else down if direction < 0 else z3.Or(up, down)
                again = z3.And(recorded_at_end, a == 0, b != 0)
                tr.overwrite()
                now, ny = entries(ev)
                new = len(now) - len(before)
                tag = "step %d: " % k
                run.record(tag + "times and states aligned", ny == len(now), "%d times, %d states" % (len(now), ny))
                for i, e in enumerate(before):
                    run.prove(tag + "earlier entries stay", same_entry(e, now[i]) if i < len(now) else z3.BoolVal(False))
                run.record(tag + "at most one new entry", new in (0, 1), "%d new entries" % new)
                run.prove(tag + "an entry is recorded exactly when the function crosses zero in the direction",
                          z3.And(trig, z3.Not(again)) if new == 1 else z3.Not(z3.And(trig, z3.Not(again))))
                run.prove(tag + "it reports termination exactly when it is terminal and triggered",
                          z3.Or(again, lift_bool(ret) == z3.And(z3.BoolVal(terminal), trig)))
                if new == 1:
                    run.cover("recorded in step %d" % k)
                    t, y = now[-1]
                    run.prove(tag + "the recorded time is within the step", z3.And(t >= tr.T[k - 1], t <= tr.T[k]))
                    run.prove(tag + "the recorded state is the solution at that time", y(I) == tr.solution(t)(I))
                    run.prove(tag + "the recorded time is a zero at the end of the step, or located by bisection",
                              z3.Or([z3.And(b == 0, t == tr.T[k])] + [t == r for r in bc.calls]))
                    run.prove(tag + "last_event is the newest entry", z3.And(to_real(ev.last_event[0]) == t, vec(ev.last_event[1])(I) == y(I)))
                    recorded_at_end = t == tr.T[k]
                else:
                    recorded_at_end = z3.BoolVal(False)
                if terminal and c.decide(lift_bool(ret)):
                    return
        run.cover("two steps")
    return spec


for dr, nm_ in ((1, "upwards"), (-1, "downwards"), (0, "in both directions")):
    add("C13", "an event %s, over two successive steps" % nm_, one_event(dr), covers=("recorded in step 1", "recorded in step 2", "two steps"), loop_limit=3)


# ---------------------------------------------------------------- C13, C15: all events over a step

class BisectAny(BisectContract):
    """The same contract with several event functions: roots[i] is the root located for function i."""

    def __init__(self, track, funcs):
        self.track, self.funcs, self.roots = track, funcs, {}

    def __call__(self, fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):
        c, tr = ctx(), self.track
        gl = to_real(fun(SR(to_real(left)), *args))
        for i, f in enumerate(self.funcs):
            if gl.eq(f.value(to_real(left), tr.Y[tr.k - 1])):
                break
        else:
            c.run.record("bisect is applied to an event function along the solution", False, "value at the left end: %s" % gl)
            raise PathEnd("unknown function")
        one = BisectContract(tr, self.funcs[i])
        r = one(fun, left, right, tol, maxiter, rtol, args)
        self.roots.setdefault(i, []).append(one.calls[-1])
        return r


def handler(n, attrs, simple=False, single=False):
    """attrs[i]: which of terminal/direction event i has.  One step; every event judged by its own rule."""
    def spec():
        c = ctx()
        run = c.run
        d = dimension()
        tr = Track(d)
        fs = [EventFunction(d, "E%d" % i) for i in range(n)]
        term, dirs = [], []
        for i, f in enumerate(fs):
            t = z3.Bool("terminal%d" % i)
            dl = z3.Real("direction%d" % i)
            if "t" in attrs[i]:
                f.terminal = bool(c.decide(t))
                term.append(f.terminal)
            elif "T" in attrs[i]:
                f.terminal = True
                term.append(True)
            else:
                term.append(False)
            if "d" in attrs[i]:
                f.direction = SR(dl)
                dirs.append(dl)
            else:
                dirs.append(z3.RealVal(0))
        bc = BisectAny(tr, fs)
        with bc.contracts():
            h = EV.build_handler(fs[0] if single else tuple(fs), SR(tr.T[0]), Arr.of(tr.cache.y))
            evs = list(h.events)
            run.record("one watcher per event given", len(evs) == n, "%d watchers" % len(evs))
            if len(evs) != n:
                return
            tr.advance()
            T1 = tr.T[1]
            a = [f.value(tr.T[0], tr.Y[0]) for f in fs]
            b = [f.value(T1, tr.Y[1]) for f in fs]
            if simple:
                for i in range(n):
                    c.assume(z3.And(a[i] < 0, b[i] != 0))
            ret = lift_bool(h.evaluate(tr.interpolate, tr.rhs, tr.cache, tr.h))
        tr.overwrite()
        trig = []
        for i in range(n):
            up, down = z3.And(a[i] <= 0, b[i] >= 0), z3.And(a[i] >= 0, b[i] <= 0)
            trig.append(z3.Or(z3.And(dirs[i] > 0, up), z3.And(dirs[i] < 0, down), z3.And(dirs[i] == 0, z3.Or(up, down))))
        hit = [c.decide(t) for t in trig]
        root = {}
        for i in range(n):
            if hit[i]:
                if c.decide(b[i] == 0):
                    root[i] = T1
                else:
                    run.record("a crossing is located once", len(bc.roots.get(i, ())) == 1, "event %d: %d bisections" % (i, len(bc.roots.get(i, ()))))
                    if not bc.roots.get(i):
                        return
                    root[i] = bc.roots[i][0]
        ends = [root[i] for i in range(n) if hit[i] and term[i]]
        run.prove("it reports termination exactly when a terminal event triggers", ret == z3.BoolVal(bool(ends)))
        run.cover("terminated" if ends else "goes on")
        if ends:
            tend, yend = to_real(h.last_event[0]), vec(h.last_event[1])
            run.prove("the termination is the earliest terminal crossing", z3.And([tend <= e for e in ends] + [z3.Or([tend == e for e in ends])]))
            run.prove("the state of the termination is the solution there", yend(I) == tr.solution(tend)(I))
        for i, ev in enumerate(evs):
            got, ny = entries(ev)
            run.record("times and states aligned", ny == len(got), "%d times, %d states" % (len(got), ny))
            want = hit[i] and (not ends or z3.And([root[i] <= e for e in ends]))
            run.record("at most one entry per step", len(got) <= 1, "%d entries" % len(got))
            run.prove("each event is recorded exactly by its own rule, up to the termination", z3.BoolVal(len(got) == 1) == lift_bool(want))
            for t, y in got:
                run.prove("the entry is the crossing of its own event", t == root[i] if i in root else z3.BoolVal(False))
                run.prove("the entry's state is the solution there", y(I) == tr.solution(t)(I))
    return spec


for p in ("C13", "C15"):
    add(p, "one event given as a callable", handler(1, ["td"], single=True), covers=("terminated", "goes on"), loop_limit=6)
    add(p, "two events", handler(2, ["td", "t"], simple=False), covers=("terminated", "goes on"), loop_limit=6, weight=5)
    add(p, "three events", handler(3, ["T", "", "T"], simple=True), covers=("terminated", "goes on"), loop_limit=6)
    add(p, "two events (without attributes, terminal)", handler(2, ["", "Td"]), covers=("terminated", "goes on"), loop_limit=6, weight=5)


# ---------------------------------------------------------------- any number of recorded entries, any number of events

J = z3.Int("J")
STATE = {"func", "is_terminal", "direction", "last_t", "last_value", "t", "y"}


def symbolic_list(name, n, get):
    l = type(EV._empty_list(0.0))() if not isinstance(EV._empty_list(0.0), SList) else SList()
    l.symbolic, l.base_len, l.base_get = True, n, get
    return l


def recorded(ev, tr, d):
    """Put the watcher in the state after any number of steps: n entries in chronological order, none after T0."""
    c = ctx()
    if set(vars(ev)) != STATE or not (isinstance(ev.t, SList) and isinstance(ev.y, SList)):
        raise Unsupported("the state of Event is not the one the class contract describes: %s" % sorted(vars(ev)))
    n = z3.Int("entries")
    et = z3.Function("entry_t", z3.IntSort(), z3.RealSort())
    ey = z3.Function("entry_y", z3.IntSort(), z3.IntSort(), z3.RealSort())
    c.assume(n >= 0)
    c.universal(lambda i: z3.Implies(z3.And(i >= 0, i < n), et(i) <= tr.T[0]))
    c.index_term(J)
    c.index_term(z3.simplify(n - 1))
    ev.t = symbolic_list("t", n, lambda i: SR(et(dim_expr(i))))
    ev.y = symbolic_list("y", n, lambda i: Arr.new((d,), lambda idx, i=i: ey(dim_expr(i), dim_expr(idx[0])), "f", "entry"))
    return n, et, ey


def length(l):
    return z3.simplify(dim_expr(l.length())) if isinstance(l, SList) else z3.IntVal(len(l))


def any_history(direction):
    """Class contract of Event: one step, from the state after any number of steps."""
    def spec():
        c = ctx()
        run = c.run
        d = dimension()
        tr = Track(d)
        g = EventFunction(d)
        terminal = bool(c.choose("terminal"))
        bc = BisectContract(tr, g)
        with bc.contracts():
            ev = EV.Event(g, terminal, direction, SR(tr.T[0]), Arr.of(tr.cache.y))
            n, et, ey = recorded(ev, tr, d)
            a = g.value(tr.T[0], tr.Y[0])
            run.prove("the watcher remembers the last point", z3.And(to_real(ev.last_t) == tr.T[0], to_real(ev.last_value) == a))
            tr.advance()
            ret = ev.evaluate(tr.interpolate, tr.rhs, tr.cache, tr.h)
        b = g.value(tr.T[1], tr.Y[1])
        tr.overwrite()
        up, down = z3.And(a <= 0, b >= 0), z3.And(a >= 0, b <= 0)
        trig = up if direction > 0 else down if direction < 0 else z3.Or(up, down)
        again = z3.And(n > 0, et(n - 1) == tr.T[0], a == 0, b != 0)
        m = length(ev.t)
        run.prove("times and states aligned", m == length(ev.y))
        run.prove("an entry is recorded exactly when the function crosses zero in the direction", m == z3.If(z3.And(trig, z3.Not(again)), n + 1, n))
        run.prove("it reports termination exactly when it is terminal and triggered", z3.Or(again, lift_bool(ret) == z3.And(z3.BoolVal(terminal), trig)))
        if c.decide(z3.And(J >= 0, J < n, m >= n)):
            run.prove("earlier entries stay", z3.And(to_real(ev.t[SI(J)]) == et(J), vec(ev.y[SI(J)])(I) == ey(J, I)))
        run.prove("the watcher remembers the new point", z3.And(to_real(ev.last_t) == tr.T[1], to_real(ev.last_value) == b))
        if c.decide(m == n + 1):
            run.cover("recorded")
            t, y = to_real(ev.t[-1]), vec(ev.y[-1])
            run.prove("the recorded time is within the step", z3.And(t >= tr.T[0], t <= tr.T[1]))
            run.prove("the recorded state is the solution at that time", y(I) == tr.solution(t)(I))
            run.prove("the recorded time is a zero at the end of the step, or located by bisection",
                      z3.Or([z3.And(b == 0, t == tr.T[1])] + [t == r for r in bc.calls]))
            run.prove("last_event is the newest entry", z3.And(to_real(ev.last_event[0]) == t, vec(ev.last_event[1])(I) == y(I)))
        else:
            run.cover("nothing recorded")
    return spec


def discard():
    """Contract of discard_after: of the entries of the last step (at most one), those later than t go."""
    def spec():
        c = ctx()
        run = c.run
        d = dimension()
        tr = Track(d)
        ev = EV.Event(EventFunction(d), True, 0, SR(tr.T[0]), Arr.of(tr.cache.y))
        n, et, ey = recorded(ev, tr, d)
        tr.advance()
        t1, y1 = z3.Real("newest"), z3.Function("newest_y", z3.IntSort(), z3.RealSort())
        c.assume(z3.And(t1 >= tr.T[0], t1 <= tr.T[1]))
        new = bool(c.choose("an entry in the last step"))
        if new:
            ev.t.append(SR(t1))
            ev.y.append(sym_vec("newest_y", d))
        t = z3.Real("t_end")
        c.assume(z3.And(t >= tr.T[0], t <= tr.T[1]))
        ev.discard_after(SR(t))
        m = length(ev.t)
        run.prove("times and states aligned", m == length(ev.y))
        keep = z3.And(z3.BoolVal(new), t1 <= t)
        run.prove("exactly the entry after t goes", m == z3.If(keep, n + 1, n))
        if c.decide(z3.And(J >= 0, J < n, m >= n)):
            run.prove("earlier entries stay", z3.And(to_real(ev.t[SI(J)]) == et(J), vec(ev.y[SI(J)])(I) == ey(J, I)))
        if c.decide(m == n + 1):
            run.cover("kept")
            run.prove("the entry kept is the newest", z3.And(to_real(ev.t[-1]) == t1, vec(ev.y[-1])(I) == y1(I)))
        else:
            run.cover("discarded or none")
    return spec


for dr, nm_ in ((1, "upwards"), (-1, "downwards"), (0, "in both directions")):
    add("C13", "an event %s, one step after any number of steps" % nm_, any_history(dr), covers=("recorded", "nothing recorded"))
for p in ("C13", "C15"):
    add(p, "discard_after", discard(), covers=("kept", "discarded or none"))


class Watchers:
    """Any number of watchers by the class contract of Event, over one step.

    trig(i): crosses in its direction; ends(i): terminal and crosses; at(i): the crossing, within the step.
    Ghost: done[i] (evaluations), kept[i] (1: the entry of this step is there)."""

    def __init__(self, tr):
        c = ctx()
        INT = z3.IntSort()
        self.tr = tr
        self.n = z3.Int("events")
        c.assume(self.n >= 0)
        self.trig = z3.Function("triggers", INT, z3.BoolSort())
        self.term = z3.Function("terminal", INT, z3.BoolSort())
        self.at = z3.Function("crossing", INT, z3.RealSort())
        self.V = z3.Function("V", z3.RealSort(), INT, z3.RealSort())
        # arbitrary: whatever holds of every terminal crossing (P), or of there being one (p)
        self.P, self.p = z3.Function("P", z3.RealSort(), z3.BoolSort()), z3.Bool("p")
        inside = lambda i: z3.And(i >= 0, i < self.n)
        self.inside = inside
        c.universal(lambda i: z3.Implies(inside(i), z3.And(self.at(i) >= tr.T[0], self.at(i) <= tr.T[1])))
        c.universal(lambda i: z3.Implies(z3.And(inside(i), self.ends(i)), z3.And(self.p, self.P(self.at(i)))))
        zero = lambda idx: z3.IntVal(0)
        self.done = Arr.new((self.n,), zero, "i", "done")
        self.kept = Arr.new((self.n,), zero, "i", "kept")

    def ends(self, i):
        return z3.And(self.term(i), self.trig(i))

    def candidates(self, loop, ints, reals, bools, arrs, lists):
        out = {}
        it = lambda st: toint(st.c)
        guard = lambda e: z3.Implies(self.inside(Q), e)
        done, kept = (lambda: self.done.at((Q,))), (lambda: self.kept.at((Q,)))
        new = lambda: z3.If(self.trig(Q), z3.IntVal(1), z3.IntVal(0))
        out["watched so far [Q]"] = lambda st: guard(done() == z3.If(Q < it(st), 1, 0))
        out["all watched [Q]"] = lambda st: guard(done() == 1)
        out["recorded so far [Q]"] = lambda st: guard(kept() == z3.If(done() > 0, new(), 0))
        last = ("the last termination", None, lambda st: to_real(self.handler.last_event[0]))
        for tn, _, tg in [last] + reals:
            out["recorded up to %s so far [Q]" % tn] = lambda st, tg=tg: guard(kept() == z3.If(z3.And(Q < it(st), self.at(Q) > tg(st)), 0, new()))
            for bn, _, bg in bools:
                out["if %s, %s is a terminal crossing" % (bn, tn)] = lambda st, bg=bg, tg=tg: z3.Implies(bg(st), z3.And(self.p, self.P(tg(st))))
                out["if %s, %s is in the step" % (bn, tn)] = lambda st, bg=bg, tg=tg: z3.Implies(bg(st), z3.And(tg(st) >= self.tr.T[0], tg(st) <= self.tr.T[1]))
                out["%s, and %s before every terminal crossing so far [Q]" % (bn, tn)] = \
                    lambda st, bg=bg, tg=tg: guard(z3.Implies(z3.And(done() > 0, self.ends(Q)), z3.And(bg(st), tg(st) <= self.at(Q))))
                for an, a, ag in arrs:
                    if a.ndim == 1 and a.st.dtype == "f":
                        out["if %s, %s is the state at %s" % (bn, an, tn)] = lambda st, bg=bg, tg=tg, ag=ag: z3.Implies(bg(st), ag(st).at((I,)) == self.V(tg(st), I))
        return out


class Watcher:
    """Watcher number .e"""
    nbv_opaque = True
    world = None

    def __init__(self, e):
        self.e = dim_expr(e)

    def evaluate(self, interpolate, rhs, cache, *args):
        w, run = self.world, ctx().run
        run.record("the watchers get the solver's own interpolation, rhs, cache and arguments",
                   interpolate == w.tr.interpolate and rhs is w.tr.rhs and cache is w.tr.cache and args == (w.tr.h,), "other arguments")
        i = SI(self.e)
        run.prove("no watcher is evaluated twice in a step", to_int(w.done[i]) == 0)
        w.done[i] = w.done[i] + 1
        w.kept[i] = SI(z3.If(w.trig(self.e), z3.IntVal(1), z3.IntVal(0)))
        return SB(w.ends(self.e))

    @property
    def last_event(self):
        w, e = self.world, self.e
        new = z3.And(to_int(w.done[SI(e)]) == 1, w.trig(e))     # otherwise: an entry of an earlier step
        old_t, old_y = z3.Function("older_t", z3.IntSort(), z3.RealSort()), z3.Function("older_y", z3.IntSort(), z3.IntSort(), z3.RealSort())
        ctx().assume(old_t(e) <= w.tr.T[0])
        t = z3.If(new, w.at(e), old_t(e))
        return SR(t), Arr.new((w.tr.d,), lambda idx: z3.If(new, w.V(w.at(e), dim_expr(idx[0])), old_y(e, dim_expr(idx[0]))), "f", "crossing")

    def discard_after(self, t):
        w, e = self.world, self.e
        t = to_real(t)
        ctx().run.prove("entries of earlier steps stay", t >= w.tr.T[0])
        w.kept[SI(e)] = SI(z3.If(w.at(e) > t, z3.IntVal(0), to_int(w.kept[SI(e)])))


def any_handler():
    """EventHandler over any number of watchers, one step, whatever the last termination was."""
    def spec():
        c = ctx()
        run = c.run
        d = dimension()
        tr = Track(d)
        tr.advance()
        w = Watchers(tr)
        run.candidates = run.cfg["candidates"] = w.candidates
        me = type("Watcher", (Watcher,), dict(world=w))
        h = EV.EventHandler(symbolic_list("events", w.n, me))
        h.last_event = SR(z3.Real("before_t")), sym_vec("before_y", d)
        w.handler = h
        c.index_term(J)
        c.assume(w.inside(J)) if c.choose("some event") else c.assume(w.n == 0)
        ret = lift_bool(h.evaluate(tr.interpolate, tr.rhs, tr.cache, tr.h))
        te, ye = h.last_event
        te, ye = to_real(te), vec(ye)
        some = c.entails(w.n >= 1)
        if some:
            run.prove("every watcher is evaluated", w.done.at((J,)) == 1)
            run.prove("it reports termination whenever a terminal event triggers", z3.Implies(w.ends(J), ret))
            run.prove("the termination is not after any terminal crossing", z3.Implies(w.ends(J), te <= w.at(J)))
            run.prove("each event is recorded exactly by its own rule, up to the termination",
                      w.kept.at((J,)) == z3.If(z3.And(w.trig(J), z3.Or(z3.Not(ret), w.at(J) <= te)), 1, 0))
        run.prove("it reports termination only if a terminal event triggers", z3.Implies(ret, w.p))
        run.prove("the termination is a terminal crossing", z3.Implies(ret, w.P(te)))
        run.prove("the state of the termination is the solution there", z3.Implies(ret, ye(I) == w.V(te, I)))
        run.cover("terminates" if c.decide(ret) else "goes on")
    return spec


for p in ("C13", "C15"):
    add(p, "any number of events", any_handler(), covers=("terminates", "goes on"))


class UserEvent:
    """Event function number .e of the list given; it may or may not have the attributes."""
    nbv_opaque = True
    has_t, has_d = z3.Function("has_terminal", z3.IntSort(), z3.BoolSort()), z3.Function("has_direction", z3.IntSort(), z3.BoolSort())
    t, d = z3.Function("attr_terminal", z3.IntSort(), z3.BoolSort()), z3.Function("attr_direction", z3.IntSort(), z3.RealSort())

    def __init__(self, e):
        self.e = dim_expr(e)

    @property
    def terminal(self):
        if not ctx().decide(self.has_t(self.e)):
            raise AttributeError("terminal")
        return SB(self.t(self.e))

    @property
    def direction(self):
        if not ctx().decide(self.has_d(self.e)):
            raise AttributeError("direction")
        return SR(self.d(self.e))


class Made:
    """The watcher made for event function number .e"""
    nbv_opaque = True

    def __init__(self, e):
        self.e = dim_expr(e)


def any_build():
    """build_handler over a list of any length, against the contract of the constructors of Event and EventHandler."""
    def spec():
        c = ctx()
        run = c.run
        d = dimension()
        n = z3.Int("events")
        c.assume(n >= 0)
        t, y = SR(z3.Real("T0")), sym_vec("Y0", d)
        result = []

        def make(func, is_terminal, direction, init_t, init_y):
            if not isinstance(func, UserEvent):
                run.record("a watcher watches an event function given", False, "a %s" % type(func).__name__)
                raise PathEnd("no event function")
            e = func.e
            run.prove("terminal exactly if the attribute says so", lift_bool(is_terminal) == z3.And(UserEvent.has_t(e), UserEvent.t(e)))
            want = z3.If(UserEvent.has_d(e), UserEvent.d(e), 0)
            got = to_real(direction)
            run.prove("the direction is that of the attribute", z3.And((got > 0) == (want > 0), (got < 0) == (want < 0)))
            run.prove("the watchers start from the state given", z3.And(to_real(init_t) == t.e, vec(init_y)(I) == vec(y)(I)))
            run.cover("a watcher is made")
            return Made(e)

        def finish(events):
            result.append(events)
            return events

        def candidates(loop, ints, reals, bools, arrs, lists):
            def in_order(l):
                m = l.length()
                return z3.BoolVal(True) if isinstance(m, int) and m == 0 else z3.Implies(z3.And(Q >= 0, Q < dim_expr(m)), l.get(Q).e == Q)
            return {"%s[Q] watches event Q [Q]" % nm_: (lambda st, g=g: in_order(g(st))) for nm_, l, g in lists}
        run.candidates = run.cfg["candidates"] = candidates
        given = symbolic_list("given", n, UserEvent)
        c.index_term(J)
        c.assume(z3.And(J >= 0, J < n)) if c.choose("some event") else c.assume(n == 0)
        with contracts({EV.Event: make, EV.EventHandler: finish}):
            EV.build_handler(given, t, y)
        run.record("one handler", len(result) == 1, "%d handlers" % len(result))
        if not result:
            return
        run.prove("one watcher per event given", length(result[0]) == n)
        if c.entails(z3.And(n >= 1, length(result[0]) == n)):
            run.prove("watcher J watches event J", result[0][SI(J)].e == J)
        run.cover("done")
    return spec


for p in ("C13", "C15"):
    add(p, "build_handler for any number of events", any_build(), covers=("a watcher is made", "done"))
