"""The recorded history after arbitrary calls."""
from .util import *

BUDGET = 20


def cases(rng, tier):
    for i in range(4000):
        c = problem(rng, dims=(1, 2, 3), hs=(0.01, 0.05, 0.1))
        c["ops"] = [rng.choice(["step", "skip", "run", "interpolate", "steps"]) for _ in range(rng.choice([2, 5, 9]))]
        c["x"] = round(rng.uniform(0.1, 0.9), 3)
        yield c


def check(case):
    s, rhs, tr = make(case), rhs_of(case), Trace(case)
    ts, ys, fs = hist(s)
    points = list(zip(ts, ys))
    n = 0
    for op in case["ops"]:
        t = float(s.t)
        if op == "step":
            s.step()
        elif op == "steps":
            s.step(n=3)
        elif op == "skip":
            s.skip(n=2)
        elif op == "run":
            s.run(t + case["x"] * 2 * float(s.h))
        else:
            s.interpolate(s.cache.ts[0] + case["x"] * (t - s.cache.ts[0]))
        while tr.times()[n] < float(s.t):
            n += 1
            assert tr.steps(n), "reference stopped"
            points.append((float(tr.at[n].t), np.array(tr.at[n].y)))
        ts, ys, fs = hist(s)
        L = len(ts)
        exact([p[0] for p in points[-L:]], ts, "times of the history after %s" % op)
        exact([p[1] for p in points[-L:]], ys, "states of the history after %s" % op)
        for t, y, f in zip(ts, ys, fs):
            exact(rhs(t, y), f, "derivative recorded at %s" % t)
        exact([ts[-1]], [s.t], "t")
        exact(ys[-1], s.y, "y")
        exact(fs[-1], s.f, "f")
