"""Scalar root finders: C19 (and the contract used by C04)."""
import warnings
from .common import *
from .multistep import hd, hd_candidates
from ..tasks import add

load()
Z = sys.modules["nbkode.nbcompat.zeros"]
OK = Z.NewtonEnum.OK
REAL = z3.RealSort()


def absv(x):
    return z3.If(x >= 0, x, -x)


class Monitor:
    """An arbitrary function and derivatives; ghost: the last point(s) at which it was evaluated."""

    def __init__(self, method, x1=None):
        c = ctx()
        self.method = method
        self.F, self.F1, self.F2 = [z3.Function(n, REAL, REAL) for n in ("fx", "dfx", "ddfx")]
        self.x0, self.tol, self.rtol = z3.Reals("x0 tol rtol")
        self.n = z3.Int("maxiter")
        c.assume(z3.And(self.tol > 0, self.rtol >= 0, self.n >= 1))
        self.x1 = x1
        self.calls = Cell("calls", z3.IntVal(0))
        self.last = Cell("last", z3.RealVal(0))      # newest point
        self.prev = Cell("prev", z3.RealVal(0))      # the one before (secant)
        self.marker = object()

    def args_ok(self, args):
        ctx().run.record("the extra arguments are passed on", len(args) == 1 and args[0] is self.marker, "%d extra arguments" % len(args))

    def step(self, x):
        """The published next point after x."""
        f, f1 = self.F(x), self.F1(x)
        s = f / f1
        if self.method == "newton":
            return x - s
        adj = s * self.F2(x) / f1 / 2
        if ctx().decide(z3.And(adj < 1, -adj < 1)):
            return x - s / (1 - adj)
        return x - s

    def is_next(self, p):
        """p is the point the formula gives"""
        a, b = self.prev.get(), self.last.get()
        if self.method == "secant":
            return z3.And(self.F(b) != self.F(a), p * (self.F(b) - self.F(a)) == a * self.F(b) - self.F(a) * b)
        return z3.And(self.F1(b) != 0, p == self.step(b))

    def second(self):
        if self.x1 is not None:
            return self.x1
        p = self.x0 * q(1 + 1e-4)
        return p + z3.If(p >= 0, q(1e-4), -q(1e-4))

    def func(self, x, *args):
        c, run = ctx(), ctx().run
        self.args_ok(args)
        x = to_real(x)
        n = self.calls.get()
        if c.decide(n == 0):
            run.prove("the first point is x0", x == self.x0)
        elif self.method == "secant" and c.decide(n == 1):
            run.prove("the second point is x1 (or the documented perturbation of x0)", x == self.second())
        else:
            run.prove("every further point is given by the formula", self.is_next(x))
            run.cover("iterated")
        if self.method == "secant":
            first = n == 1
            a, b = self.last.get(), x
            # the iteration starts from the better of the two points
            if c.decide(n == 1) and c.decide(absv(self.F(x)) < absv(self.F(a))):
                a, b = x, a
            self.prev.set(a)
            self.last.set(b)
        else:
            self.last.set(x)
        self.calls.set(z3.simplify(n + 1))
        return SR(self.F(x))

    def deriv(self, which):
        def g(x, *args):
            self.args_ok(args)
            x = to_real(x)
            ctx().run.prove("derivatives are evaluated at the current point", x == self.last.get())
            return SR(which(x))
        return g

    def candidates(self, loop, ints, reals, bools, arrs, lists):
        out = {}
        n = lambda: self.calls.get()
        for nm, _, g in reals:
            out["%s is x0 before the first call" % nm] = lambda st, g=g: z3.Implies(n() == 0, g(st) == self.x0)
            out["%s is the next point" % nm] = lambda st, g=g: z3.Implies(n() > 0, self.is_next(g(st)))
            out["%s is the last point" % nm] = lambda st, g=g: g(st) == self.last.get()
            out["%s is the point before" % nm] = lambda st, g=g: g(st) == self.prev.get()
            out["%s is the last value" % nm] = lambda st, g=g: g(st) == self.F(self.last.get())
            out["%s is the value before" % nm] = lambda st, g=g: g(st) == self.F(self.prev.get())
        for nm, _, g in ints:
            for k in (0, 2):
                out["calls == %s + %d" % (nm, k)] = lambda st, g=g, k=k: n() == g(st) + k
        return out

    def close(self, p, x):
        return absv(p - x) <= self.tol + self.rtol * absv(x)


def newton_spec(method, x1):
    def spec():
        c = ctx()
        run = c.run
        X1 = z3.Real("x1") if x1 else None
        m = Monitor(method, X1)
        run.candidates = run.cfg["candidates"] = m.candidates
        kw = {}
        if method != "secant":
            kw["fprime"] = m.deriv(m.F1)
        if method == "halley":
            kw["fprime2"] = m.deriv(m.F2)
        if x1:
            kw["x1"] = SR(X1)
        try:
            (full, r), flag = Z._newton(m.func, SR(m.x0), args=(m.marker,), tol=SR(m.tol), maxiter=SI(m.n), rtol=SR(m.rtol), **kw)
        except ValueError:
            run.record("ValueError only if x1 is given", x1, "ValueError")
            run.prove("ValueError only if x1 equals x0", X1 == m.x0 if x1 else z3.BoolVal(False))
            return
        p = to_real(r[0])
        b, a = m.last.get(), m.prev.get()
        fb, fa = m.F(b), m.F(a)
        run.record("the status is one of the enumeration", isinstance(flag, Z.NewtonEnum), str(flag))
        run.cover(flag.name)
        if flag is OK:
            run.record("converged is reported", r[3] == Z._ECONVERGED, "flag %r" % (r[3],))
            alt = [z3.And(m.F(p) == 0, p == b)]
            if method == "secant":
                alt.append(z3.And(fa == fb, a == b, p == b))
            name = "convergence only at a zero, or if the last update is within the tolerance"
            if run.proving and c.entails(z3.Or(alt)):
                run.prove(name, z3.Or(alt))
            else:
                run.prove(name, z3.Or(alt + [m.close(p, b)]))
                run.prove("the last update is given by the formula", m.is_next(p))
        elif flag is Z.NewtonEnum.DERIVATIVE_WAS_ZERO:
            run.record("not converged is reported", r[3] == Z._ECONVERR, "flag %r" % (r[3],))
            run.prove("zero derivative only if the derivative is zero at a point that is no root",
                      z3.And(m.F1(b) == 0, fb != 0, p == b) if method != "secant" else z3.BoolVal(False))
        elif flag is Z.NewtonEnum.TOLERANCE_REACHED:
            run.prove("equal values at distinct points", z3.And(fa == fb, a != b) if method == "secant" else z3.BoolVal(False))
        else:
            run.record("not converged is reported", r[3] == Z._ECONVERR, "flag %r" % (r[3],))
            run.prove("gives up only after maxiter iterations", m.calls.get() == m.n + (2 if method == "secant" else 0))
            run.prove("the last point is given by the formula", m.is_next(p) if method != "secant" else p == b)
    return spec


def wrapper(fn, flag):
    """newton and j_newton judge the status that _newton reports."""
    def spec():
        c = ctx()
        run = c.run
        full = bool(c.choose("full output")) and fn == "newton"
        p = z3.RealVal(3) if full else z3.Real("root")   # scipy's RootResults holds a float
        conv = Z._ECONVERGED if flag in (OK, Z.NewtonEnum.TOLERANCE_REACHED) else Z._ECONVERR
        got = []
        func, d1, d2 = (lambda x, *a: x), (lambda x, *a: x), (lambda x, *a: x)
        names = ("func", "x0", "fprime", "args", "tol", "maxiter", "fprime2", "x1", "rtol", "full_output")

        def contract(*a, **k):
            v = dict(fprime=None, args=(), tol=1.48e-8, maxiter=50, fprime2=None, x1=None, rtol=0.0, full_output=False)
            v.update(zip(names, a))
            v.update(k)
            got.append(v)
            return (v["full_output"], (3.0 if full else SR(p), 7, 5, conv)), flag
        disp = bool(c.choose("disp")) if fn == "newton" else True
        given = dict(fprime=d1, args=(1, 2), tol=SR(z3.Real("tol")), maxiter=33, fprime2=d2, x1=SR(z3.Real("x1")), rtol=SR(z3.Real("rtol")))
        extra = dict(full_output=full, disp=disp) if fn == "newton" else {}
        how, out, warned = "returned", None, []
        with contracts({Z._newton: contract, Z._j_newton: contract}), warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            try:
                out = getattr(Z, fn)(func, SR(z3.Real("x0")), **given, **extra)
            except RuntimeError:
                how = "RuntimeError"
            except ValueError:
                run.prove("ValueError only for a tolerance that is not positive", given["tol"].e <= 0 if fn == "newton" else z3.BoolVal(False))
                return
        if fn == "newton":
            run.prove("a tolerance that is not positive is rejected", given["tol"].e > 0)
        run.cover(how)
        run.record("the iteration is run once", len(got) == 1, "%d times" % len(got))
        for k in given:
            same = got[0][k] is given[k] or got[0][k] == given[k] if not isinstance(given[k], SR) else None
            if same is None:
                run.prove("%s is passed on" % k, to_real(got[0][k]) == given[k].e)
            else:
                run.record("%s is passed on" % k, bool(same), str(got[0][k]))
        run.record("the function is passed on", got[0]["func"] is func, "another function")
        if flag is OK:
            run.record("a converged iteration returns", how == "returned", how)
        else:
            run.record("an iteration that did not converge raises RuntimeError", how == ("RuntimeError" if disp else "returned"), how)
            if how == "returned":
                run.record("or warns", any(issubclass(w.category, RuntimeWarning) for w in warned), "no warning")
        if how != "returned":
            return
        if full:
            x, res = out
            run.record("convergence is reported as it was", bool(res.converged) == (conv == Z._ECONVERGED), str(res.converged))
            run.prove("the result holds the root", to_real(res.root) == p)
            run.record("the result holds the counts", (res.function_calls, res.iterations) == (7, 5), str((res.function_calls, res.iterations)))
        else:
            x = out
        run.prove("the root is returned", to_real(x) == p)
    return spec


for meth in ("newton", "halley", "secant"):
    for x1 in ((False, True) if meth == "secant" else (False,)):
        cov = ("OK", "NOT_CONVERGED", "iterated") + (("DERIVATIVE_WAS_ZERO",) if meth != "secant" else ("TOLERANCE_REACHED",))
        add("C19", "_newton: %s%s" % (meth, " with x1" if x1 else ""), newton_spec(meth, x1), covers=cov, loop_limit=0)
for fn in ("newton", "j_newton"):
    for fl in Z.NewtonEnum:
        add("C19", "%s on %s" % (fn, fl.name), wrapper(fn, fl), loop_limit=0)
add("C19", "newton_hd (arbitrary tolerance)", hd(False), candidates=hd_candidates, loop_limit=1, covers=("returns a root", "raises RuntimeError"))
add("C19", "newton_hd (defaults)", hd(True), candidates=hd_candidates, loop_limit=1, covers=("returns a root", "raises RuntimeError"))
