"""Adaptive steps against an independent implementation of the published controller."""
from .util import *

BUDGET = 25


def cases(rng, tier):
    for i in range(6000):
        c = problem(rng, ADAPTIVE, rhs=RHS + ["constant", "zero"], dims=(1, 2, 3, 8), hs=(1e-3, 0.05, 0.5, 2.0, 5.0))
        kw = {}
        if rng.random() < 0.7:
            kw["rtol"] = rng.choice([1e-2, 1e-4, 1e-6, 1e-9])
            kw["atol"] = rng.choice([1e-3, 1e-6, 1e-9])
        for o, vs in (("max_step", [0.02, 0.3, 3.0]), ("min_factor", [0.05, 0.5]), ("max_factor", [1.5, 4.0]), ("safety_factor", [0.5, 0.8, 0.95, 1.0, 1.1, 1.5])):
            if rng.random() < 0.3:
                kw[o] = rng.choice(vs)
        c["kw"] = kw
        c["steps"] = rng.choice([1, 3, 8])
        if kw.get("safety_factor", 0) >= 1:      # the step size depends on rounding after some attempts
            c["steps"], c["h"] = 1, min(c["h"], 2.0)
        if rng.random() < 0.2:
            c["h"] = None
        yield c


def check(case):
    s, rhs = make(case), rhs_of(case)
    o = dict(DEFAULTS, **case["kw"])
    assert s.h <= o["max_step"], "first step size %r, max_step %r" % (s.h, o["max_step"])
    if case["h"] is not None:
        close(min(case["h"], o["max_step"]), float(s.h), "first step size")
    for n in range(case["steps"]):
        t, y, h = float(s.t), np.array(s.y), float(s.h)
        try:
            t2, y2, h2, m, used, margin = adaptive_step(case["cls"], rhs, t, y, h, case["kw"])
        except LookupError:
            return       # never accepted (possible with a safety_factor above 1)
        if margin < 1e-6 or m > 10:
            return       # rounding decides
        ts, ys, fs = hist(s)
        s.step()
        what = "after step %d (%d attempts) with h=%r %s" % (n + 1, m, h, case["kw"])
        close(t2, float(s.t), "time " + what, rtol=1e-6, atol=1e-9)
        close(y2, s.y, "state " + what, rtol=1e-5, atol=1e-7)
        N = rk_error_norm(case["cls"], rhs, t, y, used, *rk_stages(case["cls"], rhs, t, y, used), o["atol"], o["rtol"])
        if N > 1e-6 or N == 0:      # smaller ones are rounding noise
            close(h2, float(s.h), "step size " + what, rtol=1e-4, atol=1e-12)
        assert s.h <= o["max_step"] * (1 + 1e-15), "step size %r, max_step %r" % (s.h, o["max_step"])
        exact(ts[1:], np.array(s.cache.ts)[:-1], "history shifted")
        exact(ys[1:], np.array(s.cache.ys)[:-1], "history shifted")
