"""Bisection on random functions."""
from .util import *
from nbkode.nbcompat import zeros

BUDGET = 15


def cases(rng, tier):
    for i in range(20000):
        yield dict(kind=rng.choice(["poly", "jump", "steep", "tiny", "cubicroot", "wave", "same", "ends", "order"]), a=round(rng.uniform(-3, 3), 4),
                   w=rng.choice([1e-9, 1e-3, 0.5, 2.0, 1e6]), x=rng.choice([0.0, 1.0, 0.5, round(rng.random(), 5)]), s=rng.choice([-1, 1]),
                   scale=rng.choice([1e-300, 1e-170, 1e-9, 1.0, 1e9]), maxiter=rng.choice([50, 50, 50, 1, 3, 10]), tol=rng.choice([None, None, 1e-3, 1e-14]))


def check(case):
    a, b = case["a"], case["a"] + case["w"]
    c, s, k = a + case["x"] * (b - a), case["s"], case["scale"]
    F = {"poly": lambda t: s * k * (t - c), "jump": lambda t: s * k * (1 if t > c else -1), "steep": lambda t: s * k * math.atan(1e6 * (t - c)),
         "tiny": lambda t: s * 1e-200 * (t - c), "cubicroot": lambda t: s * k * np.cbrt(t - c), "wave": lambda t: s * k * ((t - c) + 0.3 * math.sin(30 * (t - c)) * (t - c)),
         "same": lambda t: s * k * (1 + (t - c) ** 2), "ends": lambda t: 0.0 if t in (a, b) else s * k, "order": lambda t: s * (t - c)}[case["kind"]]
    calls = []

    def f(t, *args):
        assert args == (1, "x")
        calls.append(t)
        return F(t)
    kw = dict(maxiter=case["maxiter"])
    if case["tol"] is not None:
        kw["tol"] = case["tol"]
    tol = kw.get("tol", 1.48e-8)
    lo, hi = (a, b)
    if case["kind"] == "order":
        lo, hi = (b, a) if case["x"] < 0.5 else (a, a)
    fa, fb = F(a), F(b)
    bad = not lo < hi or (fa > 0 and fb > 0) or (fa < 0 and fb < 0)
    ex, r = raises(lambda: zeros.bisect(f, lo, hi, args=(1, "x"), **kw), ValueError)
    if bad:
        assert ex is not None, "bisect over [%r, %r] with values %r, %r gave %r" % (lo, hi, fa, fb, r)
        return
    if ex:
        raise AssertionError("bisect over [%r, %r] with values %r, %r raised %r" % (lo, hi, fa, fb, ex))
    assert a <= r <= b, "%r outside [%r, %r]" % (r, a, b)
    if abs(F(r)) <= tol:
        return
    e = (b - a) / 2.0 ** case["maxiter"] * (1 + 1e-9) + 2 * np.spacing(max(abs(a), abs(b)))
    vals = [F(min(b, max(a, x))) for x in (r - e, r, r + e)]
    assert min(vals) <= 0 <= max(vals), "no sign change within %r of %r (values %s)" % (e, r, vals)
