"""run against the interpolation of an independent solver in the step that contains each time."""
from .util import *

BUDGET = 30


def requests(rng, n):
    return [(rng.choice(["past", "future", "future", "future", "at", "hist", "now"]), round(rng.random(), 4), rng.choice([0, 1, 2, 5])) for _ in range(n)]


def pick(tr, k, spec):
    """A concrete time."""
    T = tr.times()
    where, x, j = spec
    lo = float(tr.at[k].cache.ts[0])
    if where == "past":
        return lo + x * (T[k] - lo)
    if where == "hist":
        return float(tr.at[k].cache.ts[-1 - j % len(tr.at[k].cache.ts)])
    if where == "now":
        return T[k]
    if where == "at":
        return T[min(k + j, len(T) - 1)]
    return T[k] + x * (T[min(k + 5, len(T) - 1)] - T[k])


def cases(rng, tier):
    for i in range(6000):
        c = problem(rng, dims=(1, 2, 3), hs=(0.05, 0.1))
        if rng.random() < 0.4:
            c["t_bound"] = c["t0"] + c["h"] * (6 + rng.choice([0.5, 1, 2.5, 4, 7.25]))
        c["calls"] = [dict(req=requests(rng, rng.choice([1, 1, 2, 3, 6])), scalar=rng.random() < 0.15, sort=rng.random() < 0.3, over=rng.choice([None] * 6 + ["before", "beyond", "bound"]),
                           events=rng.random() < 0.15) for _ in range(rng.choice([1, 2, 3]))]
        yield c


def check(case):
    ex, s = raises(lambda: make(case), ValueError, RuntimeError)
    if ex:
        return
    tr = Trace(case)
    k, tb = 0, case.get("t_bound")
    for call in case["calls"]:
        tr.steps(k + 6)
        ts = [pick(tr, k, r) for r in call["req"]]
        if tb is not None:
            ts = [min(t, tb) for t in ts]
        lo = float(tr.at[k].cache.ts[0])
        bad = False
        if call["over"] == "before":
            ts.append(float(np.nextafter(lo, -np.inf)))
            bad = True
        elif call["over"] == "beyond" and tb is not None:
            ts.append(float(np.nextafter(tb, np.inf)))
            bad = True
        elif call["over"] == "bound" and tb is not None:
            ts.insert(0, tb)
        if call["sort"]:
            ts = sorted(ts)
        arg = ts[0] if call["scalar"] and not bad else np.array(ts) if call["req"][0][2] % 2 else list(ts)
        want = [arg] if isinstance(arg, float) else list(arg)
        before = state(s)
        f = (lambda: s.run_events(arg, [lambda t, y: 1.0 + 0 * y[0]])[:2]) if call["events"] else (lambda: s.run(arg))
        ex, out = raises(f, ValueError, RuntimeError)
        if bad:
            assert isinstance(ex, ValueError), "run(%s) outside [%r, %r] gave %r" % (want, lo, tb, ex or out)
            same_state(before, state(s), "after the rejected call")
            continue
        if not tr.upto(max(want)):
            if case["cls"] in IMPLICIT and isinstance(ex, RuntimeError):
                return
            assert isinstance(ex, RuntimeError), "run(%s): t_bound=%r prevents it, but it gave %r" % (want, tb, ex or out)
            k = len(tr.at) - 1
            exact(float(tr.at[k].t), float(s.t), "time when t_bound stopped it")
            continue
        if ex:
            raise ex
        T = tr.times()
        exact(want, out[0], "times")
        close(np.array([tr.value(t, k) for t in want]), out[1], "states at %s (t=%r before)" % (want, T[k]), rtol=1e-10, atol=1e-12)
        while T[k] < max(want):
            k += 1
        same_state(state(tr.at[k]), state(s), "solver after run(%s)" % want)
