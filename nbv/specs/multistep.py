"""Multistep methods: C03 (formula), C04 (implicit steps: acceptance), C05 (start-up)."""
import inspect

from .common import *
from .tables import lmm
from ..sym import idx_eq
from ..tasks import add

nb = load()
ZEROS = sys.modules["nbkode.nbcompat.zeros"]
MSCORE = sys.modules["nbkode.multistep.core"]
DEFAULT_TOL = Fraction(148, 10 ** 10) * (1 + Fraction(1, 10 ** 9))


class Finder:
    """Contract of the root finders: returns a point accepted as converged (an arbitrary vector), or raises."""

    def __init__(self, d, T, h, fails=False):
        self.d, self.fails, self.calls = d, fails, []
        self.T, self.h = T, h

    def model(self, real):
        sig = inspect.signature(real)

        def find(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            p = b.arguments
            x0 = p.get("x0", p.get("y0", p.get("y")))
            z = sym_vec("Z", self.d)
            res = p["func"](z, *p["args"])
            r = sym_vec("R%d" % len(self.calls), self.d)
            self.calls.append(dict(real=real, params=p, x0=vec(x0), z=vec(z), res=vec(res), root=r, rootv=vec(r)))
            if self.fails and ctx().choose("the root finder fails"):
                raise RuntimeError
            return r
        return find

    def contracts(self):
        return contracts({f: self.model(f) for f in (ZEROS.j_newton, ZEROS.newton_hd)})


def known_part(S, name):
    """sum a_j y_j + h sum b_j f_j of the published formula."""
    a, b, bn = lmm(name)
    L = S.L

    def K(i):
        ys = [q(c) * S.ys_old(L - len(a) + j, i) for j, c in enumerate(a) if c]
        fs = [q(c) * S.fs_old(L - len(b) + j, i) for j, c in enumerate(b) if c]
        e = z3.Sum(ys) if ys else z3.RealVal(0)
        return e + S.h * z3.Sum(fs) if fs else e
    return K


def one_step(S, finder):
    """'done', 'bound' (no step beyond t_bound) or 'failed' (the root finder raised)."""
    with finder.contracts():
        try:
            S.solver.step()
            return "done"
        except RuntimeError:
            return "failed" if finder.calls else "bound"


def newest(S):
    ts, ys, fs = vec(S.cache.ts), vec(S.cache.ys), vec(S.cache.fs)
    n = S.L - 1
    return z3.simplify(ts(n)), (lambda i: ys(n, i)), (lambda i: fs(n, i))


def lmm_formula(name):
    a, b, bn = lmm(name)
    k = ORDER[name]

    def spec():
        run = ctx().run
        S = Setup(name, spaced=True, bound="none")
        fd = Finder(S.d, S.T, S.h)
        if one_step(S, fd) != "done":
            run.record("a step can be taken", False, "a step raised an error without a time bound")
            return
        run.cover("a step is taken")
        tn, yn, fn = newest(S)
        K = known_part(S, name)(I)
        run.prove("the new time is t + h", tn == S.T + S.h)
        if not bn:
            poly(run, "y_new = sum(a_j*y_j) + h*sum(b_j*f_j)", yn(I), K)
        else:
            run.record("the implicit equation is handed to the root finder once", len(fd.calls) == 1, "%d calls" % len(fd.calls))
            for cl in fd.calls:
                z, res = cl["z"](I), cl["res"](I)
                ff = find_rhs(S, S.T + S.h, cl["z"])
                run.record("the equation evaluates the rhs at (t + h, z)", ff is not None, "rhs not evaluated at the new time")
                if ff is not None:
                    E = z - S.h * q(bn) * ff(I) - K
                    ok1, d1 = ring.close(res, E, TOL)
                    ok2, _ = ring.close(res, -E, TOL)
                    run.record("the equation is z - h*b_n*rhs(t + h, z) = sum(a_j*y_j) + h*sum(b_j*f_j)", ok1 or ok2, d1)
                poly(run, "the recorded state is the root", yn(I), cl["rootv"](I))
        # exactness for polynomials up to the order: order conditions of the formula just verified
        x = lambda seq: [-(len(seq) - 1 - j) for j in range(len(seq))]
        for m in range(k + 1):
            s = sum(Fraction(c) * Fraction(xx) ** m for c, xx in zip(a, x(a)))
            if m:
                s += m * sum(Fraction(c) * Fraction(xx) ** (m - 1) for c, xx in zip(b, x(b))) + m * Fraction(bn)
            run.record("exact for polynomials of degree %d" % m, s == 1, "defect %s" % (s - 1))
    return spec


def find_rhs(S, t, y):
    for te, ye, f in reversed(S.rhs.calls):
        if ring.close(te, t, TOL)[0] and ring.close(ye(I), y(I), TOL)[0]:
            return f
    return None


ORDER = {"ForwardEuler": 1, "BackwardEuler": 1}
for n in MULTI:
    if n[-1].isdigit():
        ORDER[n] = int(n[-1])


def acceptance(name):
    """A step records the accepted root or raises and leaves everything as it was."""
    def spec():
        run = ctx().run
        S = Setup(name, spaced=True)
        fd = Finder(S.d, S.T, S.h, fails=True)
        r = one_step(S, fd)
        if r == "done":
            run.cover("a step is taken")
            tn, yn, fn = newest(S)
            run.record("the step uses the root finder", len(fd.calls) >= 1, "no call")
            if fd.calls:
                run.prove("the recorded state is the accepted root", yn(I) == fd.calls[-1]["rootv"](I))
        else:
            if r == "failed":
                run.cover("the root finder fails")
            S.unchanged(run, "after an error")
            run.prove("after an error: step size unchanged", to_real(S.solver.h) == S.h_old)
        for cl in fd.calls:
            p = cl["params"]
            tol = p.get("tol", p.get("atol"))
            run.prove("the root finder's tolerance is at most 1.48e-8", to_real(tol) <= q(DEFAULT_TOL))
            run.prove("the root finder's relative tolerance is zero", to_real(p["rtol"]) == 0)
    return spec


# ---------------------------------------------------------------- newton_hd

def m_jacobian(func, x, args=(), **k):
    """The Jacobian only directs the search: any matrix."""
    n = Arr.of(x).shape_[0]
    return Arr.fresh((n, n), "jac")


def hd(flag):
    def spec():
        c = ctx()
        run = c.run
        d = dimension()
        run.universals_ok = True
        G = Rhs(d, "G")
        atol = z3.Real("atol")
        c.assume(atol > 0)
        mx = z3.Int("maxiter")
        c.assume(mx >= 0)
        evals = []

        def func(y, *args):
            r = G(SR(z3.RealVal(0)), y)
            evals.append((vec(y), vec(r)))
            return r
        y0 = sym_vec("y0", d)
        kw = {} if flag else dict(atol=SR(atol), maxiter=SI(mx))
        at = q(DEFAULT_TOL) if flag else atol
        with contracts({ZEROS.jacobian: m_jacobian}):
            try:
                r = ZEROS.newton_hd(func, y0, (), **kw)
            except RuntimeError:
                run.cover("raises RuntimeError")
                return
            except Exception as ex:
                if type(ex).__name__ == "LinAlgError":
                    run.cover("raises LinAlgError")
                    return
                raise
        run.cover("returns a root")
        if run.proving:
            rv = vec(r)
            fr = func(r)
            n2 = to_real(NPL(fr))
            run.prove("the residual of the returned vector is within the tolerance", n2 <= at)
        y0v = vec(y0)
        g = z3.Function("y0", z3.IntSort(), z3.RealSort())
        run.prove("the start vector is not modified", y0v(I) == g(I))
    return spec


def NPL(f):
    from ..npshim import NP
    return NP.linalg.norm(f, ord=2)


def hd_candidates(loop, ints, reals, bools, arrs, lists):
    """value = func(y) for vectors; distance = 2-norm of a vector."""
    from ..npshim import NP
    out = {}
    c = ctx()
    d = z3.Int("d")
    vecs = [(n, g) for n, a, g in arrs if a.ndim == 1]
    for n, g in vecs:
        for n2, g2 in vecs:
            if n != n2:
                out["%s == func(%s)" % (n, n2)] = lambda st, g=g, g2=g2: fn_eq(g(st), g2(st))
    for n, v0, g in reals:
        for n2, g2 in vecs:
            out["%s == norm(%s)" % (n, n2)] = lambda st, g=g, g2=g2: g(st) == to_real(NP.linalg.norm(g2(st), ord=2))
            out["%s == norm(func(%s))" % (n, n2)] = lambda st, g=g, g2=g2: g(st) == to_real(NP.linalg.norm(fn_of(g2(st)), ord=2))
    return out


def fn_of(y):
    d = z3.Int("d")
    f = Rhs(d, "G").value(z3.RealVal(0), vec(y))
    return Arr.new((d,), lambda idx: f(dim_expr(idx[0])), "f")


def fn_eq(a, y):
    f, v = vec(fn_of(y)), vec(a)
    gi = z3.Int("gi!")
    return z3.And(f(I) == v(I), f(gi) == v(gi))


# ---------------------------------------------------------------- start-up (C05)

class FirstStepper:
    """Contract of a solver used to start a multistep method.

    Fixed step: constructed at (t0, y0), each step() advances by h to the states G(1), G(2) ...
    Variable step: run(ts) returns the times and the solution there."""

    def __init__(self, S, fixed, multistep=False):
        self.S, self.fixed, self.multistep = S, fixed, multistep
        self.made = []

    def cls(self):
        outer = self

        def init(s, rhs, t0, y0, params=None, *, h=None, t_bound=float("inf"), first_stepper_cls="auto", **kw):
            s._k = 0
            s._rhs, s._t0, s._y0 = rhs, to_real(t0), vec(y0)
            s._h = None if h is None else to_real(h)
            outer.made.append(s)
            if outer.multistep and first_stepper_cls is not None:
                s._k = 3        # its own start-up advances it (contract C05 of that solver)

        def state(s, k):
            return outer.S["Y0"](I) if k == 0 else None

        def y(s):
            k = s._k
            return outer.state(k)

        def skip(s, *, n=1):
            s._k += int(n)

        def step(s, *, n=1):
            """Returns the points passed, one row per step, as Solver.step does."""
            first, n = s._k, int(n)
            s._k += n
            step_h = s._h if s._h is not None else z3.RealVal(0)
            return (Arr.new((n,), lambda idx: s._t0 + (dim_expr(idx[0]) + first + 1) * step_h, "f"),
                    Arr.new((n, outer.S["d"]), lambda idx: outer.pick(idx[0] + first if isinstance(idx[0], int) else dim_expr(idx[0]) + first, dim_expr(idx[1])), "f"))

        def run(s, ts):
            ts = Arr.of(ts)
            s._asked = vec(ts)
            n = ts.shape_[0]
            s._n = n
            sn = ts.snap()
            g = outer.S["Gs"]
            return Arr.new((n,), lambda idx: sn(tuple(idx)), "f"), Arr.new((n, outer.S["d"]), lambda idx: outer.pick(idx[0], dim_expr(idx[1])), "f")

        ns = dict(__init__=init, t=property(lambda s: SR(s._t0 + s._k * (s._h if s._h is not None else z3.RealVal(0)))),
                  y=property(y), f=property(lambda s: s._rhs(s.t, s.y)), step=step, skip=skip, run=run, FIXED_STEP=self.fixed, _step=None,
                  _fixed_step_builder=classmethod(lambda c: None), _step_builder=classmethod(lambda c: None))
        if self.multistep:
            ns["ORDER"] = 4
            return type(MSCORE.Multistep)("FirstMultistep", (MSCORE.Multistep,), ns, abstract=True)
        return type("First", (), ns)

    def g(self, k, i):
        """The k-th state of the first stepper."""
        return self.S["Gs"](k, i) if k else self.S["Y0"](i)

    def pick(self, j, i):
        if isinstance(j, int):
            return self.S["Gs"](j + 1, i)
        return self.S["Gs"](dim_expr(j) + 1, i)

    def state(self, k):
        return Arr.new((self.S["d"],), lambda idx: self.g(k, dim_expr(idx[0])), "f")


def points(name):
    """Number of past points in the published formula."""
    a, b, bn = lmm(name)
    return max(len(a), len(b))


def startup(name, kind):
    k = points(name)

    def spec():
        c = ctx()
        run = c.run
        d = dimension()
        rhs = Rhs(d)
        T0, h = z3.Real("T0"), z3.Real("h")
        c.assume(h > 0)
        Y0 = z3.Function("Y0", z3.IntSort(), z3.RealSort())
        Gs = z3.Function("Gs", z3.IntSort(), z3.IntSort(), z3.RealSort())
        S = dict(Y0=Y0, Gs=Gs, d=d)
        fs = FirstStepper(S, kind != "variable", kind == "multistep")
        tb = bound_case()
        cls = getattr(nb, name)
        arg = dict(none=None, fixed=fs.cls(), multistep=fs.cls(), variable=fs.cls(), named="FirstByName", auto="auto")[kind]
        kw = dict(h=SR(h), t_bound=tb)
        if kind == "auto":
            pass
        else:
            kw["first_stepper_cls"] = arg
        patched = "FirstByName" if kind == "named" else getattr(cls, "FIRST_STEPPER_CLS", None) if kind == "auto" else None
        y0 = sym_vec("Y0", d)
        saved = vars(nb).get(patched)
        if patched:
            setattr(nb, patched, fs.cls())
        try:
            with contracts():
                s = cls(rhs, SR(T0), y0, **kw)
        except ValueError:
            last = T0 + (k - 1) * h
            run.record("refused only if the start-up would pass the bound", kind != "none" and k > 1 and not isinstance(tb, float), "refused without need")
            if not isinstance(tb, float):
                run.prove("refused only if the start-up would pass the bound", last > to_real(tb))
            return
        finally:
            if patched:
                if saved is None:
                    delattr(nb, patched)
                else:
                    setattr(nb, patched, saved)
        run.cover("constructed")
        L = s.cache.ts.shape_[0]
        ts, ys, fv = vec(s.cache.ts), vec(s.cache.ys), vec(s.cache.fs)
        stay = kind == "none" or k == 1
        steps = 0 if stay else k - 1
        run.record("the history holds at least k points", L >= max(k, 2), "%d" % L)
        if not isinstance(tb, float) and not stay:
            run.prove("the start-up does not pass t_bound", ts(L - 1) <= to_real(tb))
        for m in fs.made:
            run.prove("the first stepper starts at t0", m._t0 == T0)
            run.prove("the first stepper starts at y0", m._y0(I) == Y0(I))
            if m._h is not None:
                run.prove("the first stepper uses the same step size", m._h == h)
            f1, f2 = vec(m._rhs(SR(z3.Real("tt")), sym_vec("yy", d))), rhs.value(z3.Real("tt"), z3.Function("yy", z3.IntSort(), z3.RealSort()))
            run.prove("the first stepper integrates the same rhs", f1(I) == f2(I))
        for j in range(L):
            n = j - (L - 1) + steps          # index of the grid point
            n = max(n, 0)
            t, y = T0 + n * h, (lambda i, n=n: fs.g(n, i))
            run.prove("history time %d is t0 + %d*h" % (j, n), ts(j) == t)
            run.prove("history state %d is that of the first stepper after %d steps" % (j, n), ys(j, I) == y(I))
            run.prove("history derivative %d is the rhs there" % j, fv(j, I) == rhs.value(t, y)(I))
        run.prove("the solver is at t0 + (k-1)*h", to_real(s.t) == T0 + steps * h)
    return spec


for n in MULTI:
    add("C03", n, lmm_formula(n), covers=("a step is taken",))
    for kind in ("none", "fixed", "multistep", "variable", "auto", "named"):
        if points(n) == 1 and kind in ("multistep", "named"):
            continue
        add("C05", "%s first stepper: %s" % (n, kind), startup(n, kind), covers=("constructed",))
for n in IMPLICIT:
    add("C04", n, acceptance(n), covers=("a step is taken", "the root finder fails"))
add("C04", "newton_hd (arbitrary tolerance)", hd(False), candidates=hd_candidates, loop_limit=1, covers=("returns a root", "raises RuntimeError"))
add("C04", "newton_hd (defaults)", hd(True), candidates=hd_candidates, loop_limit=1, covers=("returns a root", "raises RuntimeError"))
