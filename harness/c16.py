"""Results are snapshots, inputs stay as they were."""
from .util import *

BUDGET = 25


def cases(rng, tier):
    for i in range(6000):
        c = problem(rng, dims=(1, 2, 3), hs=(0.05, 0.1))
        if i % 3 == 0:
            c["cls"] = rng.choice(ADAPTIVE)
        c["ops"] = [(rng.choice(["step", "steps", "upto", "run", "run1", "hist", "events", "interp", "ends", "none", "sorted", "sorted1", "stop"]), round(rng.random(), 4)) for _ in range(rng.choice([1, 2, 4]))]
        c["write"] = rng.random() < 0.6
        c["params"] = rng.random() < 0.3
        yield c


def arrays(x, out):
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, out)
    return out


def rng_bit(x):
    return int(x * 1e4) % 2 == 1


def check(case):
    rhs0 = rhs_of(case)
    y0 = y0_of(case)
    y0c = y0.copy()
    kw = dict(first_step=case["h"]) if case["cls"] in ADAPTIVE else dict(h=case["h"])
    p = np.array([1.0, 2.0])
    if case["params"]:
        def rhs(t, y, q):
            return rhs0(t, y) * q[0] + 0 * q[1]
        mk = lambda y: getattr(nbkode, case["cls"])(rhs, case["t0"], y, p, **kw)
    else:
        mk = lambda y: getattr(nbkode, case["cls"])(rhs0, case["t0"], y, **kw)
    s, ref = mk(y0), mk(y0c.copy())
    exact(y0c, y0, "y0 after the construction")
    y0[:] = 77.0          # the caller reuses its array
    same_state(state(ref), state(s), "after modifying y0")
    kept = []
    for op, x in case["ops"]:
        def call(s):
            t, h, lo = float(s.t), float(s.h), float(s.cache.ts[0])
            req = np.array([t + 2.3 * h, t + x * h, lo + x * (t - lo), t + h])
            if op in ("sorted", "stop"):
                req = np.sort(req)
            elif op == "sorted1":
                req = np.array([t + (0.2 + x) * h])
            if rng_bit(x):
                req = np.sort(req[req > t])
            req0 = req.copy()

            def stop(u, y):
                return u - (t + (0.2 + 1.5 * x) * h)
            stop.terminal = True
            g = lambda t, y: y[0] - 0.7
            r = {"step": lambda: s.step(), "steps": lambda: s.step(n=3), "upto": lambda: s.step(upto_t=t + 2.5 * h), "run": lambda: s.run(req),
                 "run1": lambda: s.run(np.array([t + x * h])), "hist": lambda: s.run(np.array([lo, lo + x * (t - lo), t])),
                 "sorted": lambda: s.run(req), "sorted1": lambda: s.run(req),
                 "stop": lambda: s.run_events(req, [lambda t, y: math.sin(9 * t), stop]), "events": lambda: s.run_events(req, [lambda t, y: math.sin(9 * t), g]), "interp": lambda: s.interpolate(lo + x * (t - lo)),
                 "ends": lambda: [s.interpolate(float(v)) for v in s.cache.ts], "none": lambda: s.run_events(req, None)}[op]()
            exact(req0, req, "times given to %s" % op)
            for a in arrays(r, []):
                assert not np.shares_memory(a, req), "%s returned the caller's array" % op
            return r
        ex, r = raises(lambda: call(s), RuntimeError)
        if ex:
            return
        call(ref)
        got = arrays(r, [])
        for a in got:
            for m in (s.cache.ts, s.cache.ys, s.cache.fs):
                assert not np.shares_memory(a, m), "the result of %s shares memory with the solver" % op
            for b, _ in kept:
                assert not np.shares_memory(a, b), "the result of %s shares memory with an earlier result" % op
        if case["write"]:
            for a in got:
                if a.flags.writeable:
                    a[...] = -55.0
        kept += [(a, a.copy()) for a in got]
        same_state(state(ref), state(s), "after modifying the results of %s" % op)
        for a, v in kept:
            exact(v, a, "an earlier result")
    ex, _ = raises(lambda: (s.skip(n=3), ref.skip(n=3)), RuntimeError)
    for a, v in kept:
        exact(v, a, "a result after the solver advanced")
    if not ex:
        lo, t = float(s.cache.ts[0]), float(s.t)
        exact(ref.interpolate((lo + t) / 2), s.interpolate((lo + t) / 2), "interpolation after modifying results")
        same_state(state(ref), state(s), "at the end")
    exact([1.0, 2.0], p, "params")
