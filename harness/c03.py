"""Multistep steps against the published formulas, from the recorded history."""
from .util import *

BUDGET = 20


def cases(rng, tier):
    for i in range(4000):
        c = problem(rng, MULTI, dims=(1, 1, 2, 3, 6), hs=(1e-3, 0.01, 0.05, 0.1))
        c["steps"] = rng.choice([1, 2, 4, 8])
        yield c


def check(case):
    s, rhs = make(case), rhs_of(case)
    a, b, bn = lmm(case["cls"])
    for n in range(case["steps"]):
        ts, ys, fs = hist(s)
        h = float(s.h)
        s.step()
        close(ts[-1] + h, float(s.t), "time", rtol=1e-14)
        yn = sum(float(x) * v for x, v in zip(a[::-1], ys[::-1])) + h * sum(float(x) * v for x, v in zip(b[::-1], fs[::-1]))
        yn = yn + h * float(bn) * np.array(rhs(s.t, s.y))
        close(yn, s.y, "state after step %d of %s" % (n + 1, case["cls"]), rtol=1e-8 if not bn else 1e-6, atol=1e-10 if not bn else 2e-7)
        exact(rhs(s.t, s.y), s.f, "recorded derivative")
