"""Ghost models shared by the specifications."""
import sys

from .. import instrument, ring, runtime
from fractions import Fraction

from ..engine import Cell, Ctx, Obligation, PathEnd, Q, toint, Run, Unsupported, ctx, lift_bool, pathstr, z3
from ..npshim import reify
from ..sym import Arr, LiveStorage, SB, SI, SList, SR, Storage, dim_expr, is_num, q, real_of, simp_int, to_int, to_real

TOL = Fraction(1, 10 ** 12)
_loaded = [False]


def load():
    """Import (instrumented) nbkode from /repo."""
    if not _loaded[0]:
        assert ctx() is None
        instrument.install(runtime)
        import nbkode
        import nbkode.util
        import nbkode.nbcompat.zeros
        _loaded[0] = True
    import nbkode
    return nbkode


I = z3.Int("I")      # arbitrary component of a state vector
J = z3.Int("J")      # arbitrary position of an output sequence

CONCRETE = ["AdamsBashforth1", "AdamsBashforth2", "AdamsBashforth3", "AdamsBashforth4", "AdamsBashforth5",
            "AdamsMoulton1", "AdamsMoulton2", "AdamsMoulton3", "AdamsMoulton4", "AdamsMoulton5",
            "ForwardEuler", "BackwardEuler", "BDF1", "BDF2", "BDF3", "BDF4", "BDF5", "BDF6",
            "Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8", "RungeKutta23", "RungeKutta45", "DOP853"]
MULTI = CONCRETE[:18]
ADAMS_B, ADAMS_M, BDFS = CONCRETE[:5] + ["ForwardEuler"], CONCRETE[5:10] + ["BackwardEuler"], CONCRETE[12:18]
IMPLICIT = ADAMS_M + BDFS
RK = CONCRETE[18:]
ADAPTIVE = ["RungeKutta23", "RungeKutta45", "DOP853"]


def vec(a):
    """Arr -> closure of its content now."""
    a = Arr.of(a)
    s, dt = a.snap(), a.st.dtype
    return lambda *i: real_of(s(tuple(i)), dt)


class Rhs:
    """The user's right-hand side: any deterministic function of (t, y)."""

    def __init__(self, d, name="F"):
        self.d, self.name = d, name
        self.calls = []

    def value(self, t, y):
        """closure i -> rhs(t, y)[i] (y closure)"""
        c = ctx()
        return reify(self.name, (t,), y, self.d, lambda: c.func(self.name, z3.IntSort(), z3.RealSort()))

    def __call__(self, t, y, *args):
        a = Arr.of(y)
        if a.ndim != 1:
            raise ValueError("rhs called with an array of rank %d" % a.ndim)
        te, ye = to_real(t), vec(a)
        f = self.value(te, ye)
        if not ctx().entails(dim_expr(a.shape_[0]) == dim_expr(self.d)):
            ctx().run.prove("rhs is called with vectors of the system's dimension", dim_expr(a.shape_[0]) == dim_expr(self.d))
        self.calls.append((te, ye, f))
        return Arr.new((self.d,), lambda idx: f(dim_expr(idx[0])), "f", "rhs")


def dimension():
    c = ctx()
    d = z3.Int("d")
    c.assume(d >= 1)
    c.assume(z3.And(I >= 0, I < d))
    return d


def sym_vec(name, d):
    f = z3.Function(name, z3.IntSort(), z3.RealSort())
    return Arr.new((d,), lambda idx: f(dim_expr(idx[0])), "f", name)


def bound_case(finite=True):
    """t_bound: an arbitrary finite number, or (other path) infinity."""
    c = ctx()
    if c.choose("finite t_bound"):
        return SR(z3.Real("t_bound"))
    return float("inf")


class Setup:
    """A solver of a concrete class in an arbitrary state with history satisfying the class invariant."""

    def __init__(self, name, spaced=True, bound="both", options=None, h=None, past=True):
        nb = load()
        c = ctx()
        self.cls = cls = getattr(nb, name)
        self.d = d = dimension()
        self.rhs = Rhs(d)
        self.h = h if h is not None else z3.Real("h")
        c.assume(self.h > 0)
        self.T = z3.Real("T")
        self.tb = bound_case() if bound == "both" else SR(z3.Real("t_bound")) if bound == "finite" else float("inf")
        kw = dict(t_bound=self.tb)
        if name in ADAPTIVE:
            kw["first_step"] = SR(self.h)
            kw.update(options or {})
        else:
            kw["h"] = SR(self.h)
        if name in MULTI:
            kw["first_stepper_cls"] = None
        with contracts():
            self.solver = s = cls(self.rhs, SR(self.T), sym_vec("Y0", d), **kw)
        self.cache = s.cache
        self.L = s.cache.ts.shape_[0]
        if past:
            self.history(spaced)
        self.snapshot()

    def history(self, spaced):
        """Arbitrary history ending at T: times, states, and each derivative the rhs at its point."""
        c, L, d = ctx(), self.L, self.d
        if spaced:
            ts = [self.T - (L - 1 - j) * self.h if j < L - 1 else self.T for j in range(L)]
        else:
            # previous step sizes as independent positive numbers
            ts = [None] * L
            ts[L - 1] = self.T
            for j in range(L - 2, -1, -1):
                hh = z3.Real("hp%d" % (L - 1 - j))
                c.assume(hh > 0)
                ts[j] = ts[j + 1] - hh
        Y = [z3.Function("Y%d" % j, z3.IntSort(), z3.RealSort()) for j in range(L)]
        F = [self.rhs.value(ts[j], Y[j]) for j in range(L)]

        def pick(fs):
            def content(idx):
                j = idx[0]
                if isinstance(j, int):
                    return fs[j](*[dim_expr(i) for i in idx[1:]])
                r = fs[0](*[dim_expr(i) for i in idx[1:]])
                for k in range(1, L):
                    r = z3.If(dim_expr(j) == k, fs[k](*[dim_expr(i) for i in idx[1:]]), r)
                return r
            return content
        self.cache.ts.st._content = pick([(lambda t: (lambda: t))(t) for t in ts])
        self.cache.ys.st._content = pick(Y)
        self.cache.fs.st._content = pick(F)
        self.Y, self.F, self.ts0 = Y, F, ts

    def snapshot(self):
        self.ts_old, self.ys_old, self.fs_old = vec(self.cache.ts), vec(self.cache.ys), vec(self.cache.fs)
        self.ncalls = len(self.rhs.calls)
        self.h_old = to_real(self.solver.h)

    def unchanged(self, run, tag):
        """Obligations: the history is as in the snapshot."""
        ts, ys, fs = vec(self.cache.ts), vec(self.cache.ys), vec(self.cache.fs)
        for j in range(self.L):
            run.prove("%s: time %d of the history unchanged" % (tag, j), ts(j) == self.ts_old(j))
            run.prove("%s: state %d of the history unchanged" % (tag, j), ys(j, I) == self.ys_old(j, I))
            run.prove("%s: derivative %d of the history unchanged" % (tag, j), fs(j, I) == self.fs_old(j, I))


class contracts:
    """Replace functions of (or imported into) nbkode by contract models while active.

    {original function: model}; every module global that is the original is replaced."""

    def __init__(self, repl=None):
        self.repl = dict(repl or {})

    def __enter__(self):
        self.saved = []
        core = sys.modules["nbkode.core"]
        repl = dict(self.repl)
        for nm, m in EXTERNAL.items():
            f = getattr(core, nm, None)
            if f is not None and f not in repl:
                repl[f] = m
        for mod in list(sys.modules.values()):
            n = getattr(mod, "__name__", "")
            if n == "nbkode" or n.startswith("nbkode."):
                for k, v in list(vars(mod).items()):
                    try:
                        if callable(v) and v in repl:
                            self.saved.append((mod, k, v))
                            setattr(mod, k, repl[v])
                    except TypeError:
                        pass
        return self

    def __exit__(self, *a):
        for mod, k, v in self.saved:
            setattr(mod, k, v)


def m_select_initial_step(fun, t0, y0, *args, **kw):
    """SciPy's initial step heuristic: some positive number."""
    c = ctx()
    r = c.real("h_initial")
    c.assume(r > 0)
    c.events.append(("select_initial_step", t0, y0, args, kw, r))
    return SR(r)


def m_validate_max_step(x):
    if x <= 0:
        raise ValueError("`max_step` must be positive.")
    return x


def m_validate_tol(rtol, atol, n):
    if isinstance(atol, (SR, float)) and atol < 0:
        raise ValueError("`atol` must be positive.")
    return rtol, atol


EXTERNAL = {"select_initial_step": m_select_initial_step, "validate_max_step": m_validate_max_step, "validate_tol": m_validate_tol}


def poly(run, name, a, b, tol=None):
    """Obligation: a == b as polynomials (coefficients up to rounding of the constants)."""
    if not run.proving:
        return
    a, b = z3.simplify(a, som=False) if False else a, b
    ok, detail = ring.close(a, b, TOL if tol is None else tol)
    run.record(name, ok, detail, backend="ring normal form")

