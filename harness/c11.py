"""Dense output against the Hermite / published polynomial of the containing step."""
from .util import *

BUDGET = 25


def cases(rng, tier):
    for i in range(6000):
        c = problem(rng, dims=(1, 2, 3, 8), hs=(0.05, 0.2, 0.5))
        if i % 2:
            c["cls"] = rng.choice(ADAPTIVE)
        if c["cls"] in IMPLICIT:
            c["h"] = 0.05
        c["ops"] = [(rng.choice(["step", "skip", "interp", "interp", "interp", "run", "ends", "outside"]), round(rng.random(), 4)) for _ in range(rng.choice([3, 6, 12]))]
        yield c


def check(case):
    s, rhs = make(case), rhs_of(case)
    for op, x in case["ops"]:
        ts, ys, fs = hist(s)
        if op == "step":
            s.step()
        elif op == "skip":
            s.skip(n=2)
        elif op == "run":
            t = ts[-1] + x * float(s.h)
            v = s.run(t)[1][0]
            close(dense_reference(case, s, t), v, "run(%r)" % t, rtol=1e-8, atol=1e-10)
        elif op == "interp":
            t = ts[0] + x * (ts[-1] - ts[0])
            close(dense_reference(case, s, t), s.interpolate(t), "interpolate(%r) with history %s" % (t, ts.tolist()), rtol=1e-8, atol=1e-10)
        elif op == "ends":
            for t, y in zip(ts, ys):
                close(y, s.interpolate(t), "interpolate at the recorded time %r" % t, rtol=1e-9, atol=1e-11)
            if ts[-1] > ts[0]:
                k = 1 + int(x * (len(ts) - 1)) % (len(ts) - 1)
                if ts[k] > ts[k - 1]:
                    e = 1e-5 * (ts[k] - ts[k - 1])
                    d0 = (np.array(s.interpolate(ts[k - 1] + e)) - ys[k - 1]) / e if k == 1 else None
                    d1 = (ys[k] - np.array(s.interpolate(ts[k] - e))) / e
                    big = 1 + np.max(np.abs(fs))
                    close(fs[k], d1, "slope at the end %r" % ts[k], rtol=0, atol=2e-3 * big)
                    if d0 is not None:
                        close(fs[0], d0, "slope at the start %r" % ts[0], rtol=0, atol=2e-3 * big)
        else:
            before = state(s)
            for t in (np.nextafter(ts[0], -np.inf), np.nextafter(ts[-1], np.inf), ts[0] - 1 - x, ts[-1] + x + 0.1, float("nan")):
                ex, v = raises(lambda: s.interpolate(float(t)), ValueError)
                assert ex is not None, "interpolate(%r) outside [%r, %r] gave %s" % (t, ts[0], ts[-1], v)
            same_state(before, state(s), "after rejected interpolations")
