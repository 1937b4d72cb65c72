"""Steps of the Runge-Kutta solvers against the published tableaux."""
from .util import *

BUDGET = 20


def cases(rng, tier):
    for i in range(4000):
        c = problem(rng, RK, dims=(1, 2, 3, 4, 7, 8, 13), hs=(1e-3, 0.01, 0.1, 0.3, 1.0))
        c["steps"] = rng.choice([1, 2, 5])
        if c["cls"] in ADAPTIVE:
            c["kw"] = dict(rtol=rng.choice([1e-2, 1e-4, 1e-7]), atol=rng.choice([1e-3, 1e-6, 1e-9]))
        yield c


def check(case):
    s, rhs = make(case), rhs_of(case)
    for n in range(case["steps"]):
        t, y, h = float(s.t), np.array(s.y), float(s.h)
        s.step()
        if case["cls"] in ADAPTIVE:
            h = float(s.t) - t
        else:
            close(t + h, float(s.t), "time after step %d" % (n + 1), rtol=1e-14)
        K, yn = rk_stages(case["cls"], rhs, t, y, h)
        close(yn, s.y, "state after step %d of %s" % (n + 1, case["cls"]), rtol=1e-8, atol=1e-10)
        exact(rhs(s.t, s.y), s.f, "recorded derivative")
