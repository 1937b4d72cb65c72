"""No sequence of calls passes t_bound."""
from .util import *

BUDGET = 25


FINDING = dict(kind="safety_factor", cls="DOP853")


def key(case, err):
    return "safety-factor-above-one" if case == FINDING else ""


def check_finding():
    """A rejected attempt is retried with a larger step size if safety_factor > 1; the bound is not checked again."""
    s = nbkode.DOP853(lambda t, y: np.array([np.cos(t)]), 0.0, [0.0], first_step=4.733241993164965, t_bound=5.0, safety_factor=1.5)
    ex, _ = raises(s.step, RuntimeError)
    assert s.t <= 5.0, "t=%r exceeds t_bound=5.0" % float(s.t)


def cases(rng, tier):
    yield FINDING
    for i in range(6000):
        c = problem(rng, dims=(1, 2), hs=(0.05, 0.1, 0.3))
        if i % 3 == 0:
            c["cls"] = rng.choice(ADAPTIVE)
            c["kw"] = dict(rng.choice([{}, dict(max_step=0.25), dict(atol=10.0, rtol=1.0), dict(rtol=1e-8, atol=1e-10), dict(max_factor=2.0)]))
            if rng.random() < 0.3:
                c["rhs"] = rng.choice(["zero", "constant", "time"])
        k = 6 if c["cls"] in MULTI else 0
        c["t_bound"] = c["t0"] + c["h"] * rng.choice([k, k + 1, k + 3, k + 0.5, k + 2.999999, k + 7.25])
        c["ops"] = [(rng.choice(["step", "steps", "skip", "upto", "skipto", "both", "skipboth", "run", "runs", "events", "over"]),
                     rng.choice([1, 2, 3, 5]), round(rng.uniform(-0.2, 1.3), 3)) for _ in range(rng.choice([1, 3, 6, 10]))]
        c["fresh"] = rng.choice([None, None, "h0"])
        yield c


def check(case):
    if case == FINDING:
        return check_finding()
    tb = case["t_bound"]
    ex, s = raises(lambda: make(case), ValueError, RuntimeError)
    if ex:
        assert case["cls"] in MULTI, "construction failed: %s" % ex
        return
    assert s.t <= tb, "after construction t=%r exceeds t_bound=%r" % (s.t, tb)
    for op, n, x in case["ops"]:
        t = float(s.t)
        u = t + x * (tb - t)          # beyond the bound if x > 1
        if op == "over":
            u = np.nextafter(tb, np.inf) if n == 1 else tb + 10.0 ** -n
        # (the call, is it asking beyond the bound)
        f, late = {
            "step": (lambda: s.step(), False), "steps": (lambda: s.step(n=n), False), "skip": (lambda: s.skip(n=n), False),
            "upto": (lambda: s.step(upto_t=u), u > tb), "skipto": (lambda: s.skip(upto_t=u), u > tb),
            "both": (lambda: s.step(n=n, upto_t=u), u > tb), "skipboth": (lambda: s.skip(n=n, upto_t=u), u > tb),
            "run": (lambda: s.run(max(u, t)), max(u, t) > tb), "runs": (lambda: s.run(np.array([max(u, t), t])), max(u, t) > tb),
            "events": (lambda: s.run_events([t, max(u, t)], [lambda t, y: y[0] - 0.5]), max(u, t) > tb),
            "over": (lambda: [lambda: s.run(u), lambda: s.step(upto_t=u), lambda: s.skip(upto_t=u), lambda: s.run_events([u, t], lambda t, y: y[0] - 0.7)][n % 4](), True),
        }[op]
        before, hb = state(s), float(s.h)
        ex, _ = raises(f, ValueError, RuntimeError)
        assert s.t <= tb, "%s: t=%r exceeds t_bound=%r" % (op, float(s.t), tb)
        if late:
            assert isinstance(ex, ValueError), "%s for %r beyond t_bound=%r: %r" % (op, u, tb, ex)
            same_state(before, state(s), "after the rejected call")
        else:
            assert not isinstance(ex, ValueError), "%s at t=%r to %r with t_bound=%r: %r" % (op, t, u, tb, ex)
        if isinstance(ex, RuntimeError):
            assert op not in ("upto", "skipto", "both", "skipboth"), "%s raised %r" % (op, ex)
            assert case["cls"] in IMPLICIT or s.t + s.h > tb, "%s at t=%r, h=%r, t_bound=%r: %r" % (op, float(s.t), float(s.h), tb, ex)
        if op in ("step", "steps", "skip") and not ex and case["cls"] in FIXED:
            m = 1 if op == "step" else n
            close(t + m * hb, float(s.t), "time after %d steps" % m, rtol=1e-12, atol=1e-12)
