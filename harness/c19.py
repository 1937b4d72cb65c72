"""Root finders against scipy's newton (scalar) and against their own promise (systems)."""
from scipy.optimize import newton as reference

from nbkode.nbcompat import zeros
from .util import *

BUDGET = 25
F = {
    "square": (lambda x, a: x * x - a, lambda x, a: 2 * x, lambda x, a: 2.0),
    "cube": (lambda x, a: x ** 3 - a, lambda x, a: 3 * x * x, lambda x, a: 6 * x),
    "cos": (lambda x, a: math.cos(x) - a * x, lambda x, a: -math.sin(x) - a, lambda x, a: -math.cos(x)),
    "exp": (lambda x, a: math.exp(min(x, 50)) - a, lambda x, a: math.exp(min(x, 50)), lambda x, a: math.exp(min(x, 50))),
    "line": (lambda x, a: a * x - 1, lambda x, a: a, lambda x, a: 0.0),
    "flat": (lambda x, a: 0 * x + a, lambda x, a: 0.0 * x, lambda x, a: 0.0),
    "none": (lambda x, a: x * x + abs(a) + 0.1, lambda x, a: 2 * x, lambda x, a: 2.0),
    "step": (lambda x, a: 1.0 if x > a else -1.0, lambda x, a: 1.0, lambda x, a: 0.0),
    "atan": (lambda x, a: math.atan(x - a), lambda x, a: 1 / (1 + (x - a) ** 2), lambda x, a: -2 * (x - a) / (1 + (x - a) ** 2) ** 2),
    "root": (lambda x, a: np.cbrt(x - a), lambda x, a: (1 / (3 * np.cbrt(x - a) ** 2) if x != a else 0.0), lambda x, a: (-2 / (9 * np.cbrt(x - a) ** 5) if x != a else 0.0)),
}


def cases(rng, tier):
    for i in range(20000):
        if i % 4 == 3:
            yield dict(kind="system", f=rng.choice(["linear", "square", "cubic", "none", "kink", "flat"]), d=rng.choice([1, 2, 3, 5]), seed=rng.randrange(10 ** 6), maxiter=rng.choice([None, None, 1, 2, 5]),
                       atol=rng.choice([None, None, 1e-4, 1e-11]))
        else:
            yield dict(kind=rng.choice(["newton", "j_newton"]), f=rng.choice(list(F)), a=rng.choice([0.0, 1.0, 2.0, 0.3, -1.5, round(rng.uniform(-3, 3), 3)]), x0=rng.choice([0.0, 1.0, -1.0, 3.5, round(rng.uniform(-5, 5), 3)]),
                       how=rng.choice(["secant", "secant1", "newton", "halley"]), tol=rng.choice([None, None, 1e-3, 1e-12]), rtol=rng.choice([None, None, 1e-3, 0.2, 0.9]),
                       maxiter=rng.choice([None, None, 1, 2, 3, 7]), disp=rng.random() < 0.5)


def check(case):
    if case["kind"] == "system":
        return system(case)
    f, f1, f2 = F[case["f"]]
    kw = dict(args=(case["a"],))
    for k in ("tol", "rtol", "maxiter"):
        if case[k] is not None:
            kw[k] = case[k]
    if case["how"] in ("newton", "halley"):
        kw["fprime"] = f1
    if case["how"] == "halley":
        kw["fprime2"] = f2
    if case["how"] == "secant1":
        kw["x1"] = case["x0"] + 0.7
    bad = (RuntimeError, ValueError, OverflowError)
    if case["kind"] == "newton":
        exr, ref = raises(lambda: reference(f, case["x0"], full_output=True, disp=case["disp"], **kw), *bad)
        ex, got = raises(lambda: zeros.newton(f, case["x0"], full_output=True, disp=case["disp"], **kw), *bad)
    else:
        exr, ref = raises(lambda: reference(f, case["x0"], full_output=True, disp=True, **kw), *bad)
        ex, got = raises(lambda: zeros.j_newton(f, case["x0"], **kw), *bad)
    if isinstance(exr, OverflowError) or isinstance(ex, OverflowError):
        return
    assert type(ex) is type(exr), "%s: %r, expected %r" % (case["how"], ex or got, exr or ref)
    if ex:
        return
    if case["kind"] == "j_newton":
        return close(ref[0], got, "root", rtol=1e-12, atol=1e-14)
    x, r = got
    close(ref[0], x, "root", rtol=1e-12, atol=1e-14)
    flags = lambda r: dict(root=float(r.root), iterations=r.iterations, calls=r.function_calls, converged=bool(r.converged))
    a, b = flags(ref[1]), flags(r)
    close(a.pop("root"), b.pop("root"), "root", rtol=1e-12, atol=1e-14)
    # scipy reports equal secant values at distinct points as converged with disp=False
    if a != b and case["how"].startswith("secant") and not case["disp"]:
        a.pop("converged"), b.pop("converged")
    assert a == b, "%s, expected %s" % (b, a)


def system(case):
    d = case["d"]
    r = np.random.RandomState(case["seed"])
    A, b = r.uniform(-1, 1, (d, d)) + 2 * np.eye(d), r.uniform(-1, 1, d)
    f = {"linear": lambda y, c: A @ y - b * c, "square": lambda y, c: y * y - np.abs(b) * c, "cubic": lambda y, c: y ** 3 + A @ y - b * c,
         "none": lambda y, c: y * y + 1 + np.abs(b) * c, "kink": lambda y, c: np.abs(y) + 2 * y - b * c, "flat": lambda y, c: 0 * y + b * c}[case["f"]]
    y0 = r.uniform(0.5, 2, d)
    keep = y0.copy()
    kw = {k: case[k] for k in ("maxiter", "atol") if case[k] is not None}
    ex, y = raises(lambda: zeros.newton_hd(f, y0, args=(1.0,), **kw), RuntimeError, np.linalg.LinAlgError)
    exact(keep, y0, "the starting point")
    if ex:
        assert case["f"] != "linear" or case["maxiter"] is not None or case["atol"] == 1e-11, "a linear system was not solved: %r" % ex
        return
    n = np.linalg.norm(f(y, 1.0))
    assert n <= kw.get("atol", 1.48e-8) * (1 + 1e-9), "residual %r of the returned vector" % n
