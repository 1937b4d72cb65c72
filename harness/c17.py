"""Rejected calls leave the solver as it was."""
from .util import *

BUDGET = 25


def cases(rng, tier):
    for i in range(6000):
        c = problem(rng, dims=(1, 2, 3), hs=(0.05, 0.1))
        c["t_bound"] = c["t0"] + c["h"] * (6 + rng.choice([0, 1.5, 4, 7.25]))
        c["first"] = rng.choice([0, 1, 2])
        c["ops"] = [(rng.choice(["run", "events", "step", "stepn", "skip", "skipn", "interp"]), rng.choice(["late", "early", "both", "ok", "edge"]),
                     rng.choice([0, 1, 2, 3]), round(rng.random(), 4)) for _ in range(rng.choice([1, 2, 4]))]
        yield c


def check(case):
    ex, s = raises(lambda: make(case), ValueError, RuntimeError)
    if ex:
        return
    ex, _ = raises(lambda: s.skip(n=case["first"]) if case["first"] else None, RuntimeError)
    if ex:
        return
    tb = case["t_bound"]
    for op, what, where, x in case["ops"]:
        t, lo = float(s.t), float(s.cache.ts[0])
        late = [float(np.nextafter(tb, np.inf)), tb + 1e-6, tb + 5, math.inf][where]
        early = [float(np.nextafter(lo, -np.inf)), lo - 1e-6, lo - 3, -math.inf][where]
        mid = [t, t + x * (tb - t), lo + x * (t - lo), tb][where]
        if op in ("run", "events"):
            req = {"late": [mid, late, t], "early": [mid, early], "both": [early, late], "ok": [mid, t], "edge": [lo, mid, t]}[what]
            if x > 0.5:
                req = req[::-1]
            bad = what in ("late", "early", "both")
            f = (lambda: s.run(req)) if op == "run" else (lambda: s.run_events(req, lambda t, y: y[0] - 0.3))
        elif op == "interp":
            v = {"late": max(late, t + x + 1e-3), "early": early, "both": float(np.nextafter(t, np.inf)), "ok": lo + x * (t - lo), "edge": [lo, t][where % 2]}[what]
            bad = what in ("late", "early", "both")
            f = lambda: s.interpolate(v)
        else:
            v = {"late": late, "early": early, "both": late, "ok": mid, "edge": tb}[what]
            bad = what in ("late", "both")
            kw = dict(upto_t=v, n=2) if op.endswith("n") else dict(upto_t=v)
            f = lambda: getattr(s, op[:4])(**kw)
        ref = copy.deepcopy(s)
        before = state(s)
        ex, r = raises(f, ValueError, RuntimeError)
        if bad:
            assert isinstance(ex, ValueError), "%s with a time out of range (%s %s) gave %r" % (op, what, where, ex or r)
            same_state(before, state(s), "after the rejected %s" % op)
            ex1, _ = raises(lambda: s.step(n=2), RuntimeError)
            ex2, _ = raises(lambda: ref.step(n=2), RuntimeError)
            assert (ex1 is None) == (ex2 is None), "continuing after the rejected %s: %r, else %r" % (op, ex1, ex2)
            same_state(state(ref), state(s), "continuing after the rejected %s" % op)
            if ex1:
                return
        else:
            assert not isinstance(ex, ValueError), "%s (%s %s) within range raised %r" % (op, what, where, ex)
