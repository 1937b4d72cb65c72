"""Start-up of multistep solvers."""
from .util import *

BUDGET = 25
FIRST = ["auto", "RungeKutta45", "RungeKutta23", "DOP853", "RungeKutta4", "Runge2", "ForwardEuler", "Heun3", "AdamsBashforth1", "AdamsBashforth3", "BDF2", None]


def cases(rng, tier):
    for i in range(4000):
        c = problem(rng, MULTI, dims=(1, 2, 3), hs=(0.01, 0.05, 0.1))
        c["first"] = rng.choice(FIRST)
        c["bound"] = rng.choice([None, None, None, "exact", "short", "room"])
        yield c


def check(case):
    cls, first, h, t0, rhs = case["cls"], case["first"], case["h"], case["t0"], rhs_of(case)
    k = order(cls)
    kw = {} if first == "auto" else dict(first_stepper_cls=first)
    if case["bound"]:
        kw["t_bound"] = t0 + h * {"exact": k - 1 + 1e-9, "short": k - 1.5, "room": k + 3}[case["bound"]]
    y0 = y0_of(case)
    ex, s = raises(lambda: getattr(nbkode, cls)(rhs, t0, y0, h=h, **kw), ValueError, RuntimeError)
    started = first is not None and k > 1
    if case["bound"] == "short":
        if started:
            assert ex is not None, "the start-up passed t_bound: t=%s, t_bound=%s" % (s.t, kw["t_bound"])
        return
    if ex:
        raise ex
    ts, ys, fs = hist(s)
    for t, y, f in zip(ts, ys, fs):
        exact(rhs(t, y), f, "derivative recorded at %s" % t)
    if not started:
        exact(t0, float(s.t), "time")
        exact(y0, s.y, "state")
        return
    close(t0 + h * np.arange(k), ts, "times of the history", rtol=1e-12, atol=1e-13)
    exact(y0, ys[0], "state at t0")
    fcls = getattr(nbkode, "RungeKutta45" if first == "auto" else first)
    if fcls.FIXED_STEP:
        p = fcls(rhs, t0, y0, h=h, **(dict(first_stepper_cls=None) if fcls.GROUP == "Multistep" or hasattr(fcls, "FIRST_STEPPER_CLS") else {}))
        ref = []
        for _ in range(k - 1):
            p.step()
            ref.append(np.array(p.y))
    else:
        ref = fcls(rhs, t0, y0).run(t0 + h * np.arange(1, k))[1]
    close(np.array(ref).reshape(k - 1, -1), ys[1:], "states computed by the first stepper", rtol=1e-9, atol=1e-11)
