"""step and skip against an independent solver advanced one step at a time."""
from .util import *

BUDGET = 25


def cases(rng, tier):
    for i in range(6000):
        c = problem(rng, dims=(1, 2, 3), hs=(0.05, 0.1))
        if rng.random() < 0.4:
            c["t_bound"] = c["t0"] + c["h"] * (6 + rng.choice([0.5, 1, 2.5, 4, 7.25]))
        c["ops"] = [(rng.choice(["step", "skip"]), rng.choice([None, None, 0, 1, 2, 3, 7]),
                     rng.choice([None, None, "at", "at+", "at-", "now", "past", "far", "mid"]), rng.choice([0, 1, 2, 4])) for _ in range(rng.choice([1, 2, 4]))]
        yield c


def check(case):
    ex, s = raises(lambda: make(case), ValueError, RuntimeError)
    if ex:
        return
    tr = Trace(case)
    k = 0
    tb = case.get("t_bound")
    for op, n, where, j in case["ops"]:
        tr.steps(k + 8)
        T = tr.times()
        last = len(T) - 1
        u = None
        if where:
            a = T[min(k + j, last)]
            u = {"at": a, "at+": np.nextafter(a, np.inf), "at-": np.nextafter(a, -np.inf), "now": T[k], "past": T[k] - 0.01, "far": T[last] + 1e-3,
                 "mid": (T[min(k + j, last)] + T[min(k + j + 1, last)]) / 2}[where]
            if tb is not None:
                u = min(u, tb)
            while T[-1] <= u and tr.extend():
                T = tr.times()
            last = len(T) - 1
        past = u is not None and u < T[k]
        # how many steps are due
        due = 1 if n is None and u is None else n if n is not None else 10 ** 9
        if u is not None:
            fit = 0
            while k + fit + 1 <= last and T[k + fit + 1] <= u:
                fit += 1
            if case["cls"] in ADAPTIVE:
                # a step is tried only if t + h fits, whatever it ends up being
                fit2 = 0
                while fit2 < fit and T[k + fit2] + float(tr.at[k + fit2].h) <= u:
                    fit2 += 1
                fit = fit2
            else:
                fit2 = 0
                while k + fit2 <= last and T[k + fit2] + float(tr.at[k + fit2].h) <= u and k + fit2 + 1 <= last:
                    fit2 += 1
                fit = fit2
            due = min(due, fit)
        if past:
            due = 0
        kw = {}
        if n is not None:
            kw["n"] = n
        if u is not None:
            kw["upto_t"] = float(u)
        ex, out = raises(lambda: getattr(s, op)(**kw), RuntimeError)
        if u is None and k + due > last and tr.stopped:
            assert ex is not None, "%s(%s) made more steps than fit below t_bound" % (op, kw)
            k = last
            same_state(state(tr.at[k]), state(s), "after %s(%s) reached t_bound" % (op, kw))
            continue
        if ex:
            if case["cls"] in IMPLICIT:
                return
            raise ex
        same_state(state(tr.at[k + due]), state(s), "after %s(%s) from t=%r (expected %d steps)" % (op, kw, T[k], due))
        if op == "skip":
            assert out is None, "skip returned %r" % (out,)
        elif not kw:
            exact(T[k + 1], np.asarray(out[0]).reshape(-1)[0], "time returned by step()")
            exact(tr.at[k + 1].y, out[1], "state returned by step()")
        else:
            exact(T[k + 1:k + due + 1], out[0], "times returned by step(%s)" % kw)
            if due:
                exact([tr.at[k + 1 + i].y for i in range(due)], out[1], "states returned by step(%s)" % kw)
            else:
                assert np.size(out[1]) == 0, "states returned by step(%s): %r" % (kw, out[1])
        k += due
