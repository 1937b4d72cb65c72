"""Same trajectory however the calls are split."""
from .util import *

BUDGET = 30


def cases(rng, tier):
    for i in range(6000):
        c = problem(rng, dims=(1, 2, 3), hs=(0.05, 0.1))
        c["a"] = [rng.choice([1, 2, 3, 4]) for _ in range(rng.choice([1, 2, 3]))]
        c["how"] = [rng.choice(["step", "skip", "single", "run", "upto", "skipto", "peek"]) for _ in c["a"]]
        c["times"] = sorted(round(rng.uniform(0.0, 6.0), 3) for _ in range(rng.choice([2, 3, 6])))
        c["cut"] = rng.randrange(1, len(c["times"]) + 1)
        c["kind"] = rng.choice(["steps", "runs", "order", "alone"])
        yield c


def check(case):
    h = case["h"]
    if case["kind"] == "steps":
        total = sum(case["a"])
        tr = Trace(case)
        if not tr.steps(total):
            return
        s = make(case)
        k = 0
        for n, how in zip(case["a"], case["how"]):
            T = tr.times()
            if how == "single":
                for _ in range(n):
                    s.step()
            elif how == "step":
                s.step(n=n)
            elif how == "skip":
                s.skip(n=n)
            elif how == "run":
                s.run([T[k] + 0.3 * (T[k + 1] - T[k]), T[k + n]])
            elif how == "upto":
                s.skip(n=n, upto_t=T[k + n] + 1e3)
            elif how == "skipto":
                if case["cls"] in ADAPTIVE:
                    s.skip(n=n)
                else:
                    s.skip(upto_t=T[k + n] + 0.5 * h)
            else:
                for x in (0.9, 0.2, 0.5):
                    lo = float(s.cache.ts[0])
                    s.interpolate(lo + x * (float(s.t) - lo))
                s.step(n=n)
            k += n
            same_state(state(tr.at[k]), state(s), "after %s of %s" % (case["how"], case["a"]))
        ts, ys = make(case).step(n=total)
        exact(tr.times()[1:total + 1], ts, "times of %d steps at once" % total)
        exact([tr.at[i].y for i in range(1, total + 1)], ys, "states of %d steps at once" % total)
        return
    a, b, c = make(case), make(case), make(case)
    ts = [float(a.t) + x * h for x in case["times"]]
    ex, ref = raises(lambda: a.run(ts), RuntimeError)
    if ex:
        assert case["cls"] in IMPLICIT, repr(ex)
        return
    if case["kind"] == "runs":
        first, second = ts[:case["cut"]], ts[case["cut"]:]
        out = [b.run(first)]
        if second:
            out.append(b.run(second))
        exact(ref[0], np.concatenate([o[0] for o in out]), "times")
        # a time inside the last recorded step is interpolated in the same step
        close(ref[1], np.concatenate([o[1] for o in out]), "states of run(%s) then run(%s)" % (first, second), rtol=1e-12, atol=1e-13)
        same_state(state(a), state(b), "solver after run(%s) then run(%s)" % (first, second))
    elif case["kind"] == "order":
        import random
        perm = list(range(len(ts)))
        random.Random(case["seed"]).shuffle(perm)
        out = b.run([ts[i] for i in perm])
        exact([ts[i] for i in perm], out[0], "times")
        exact(ref[1][perm], out[1], "states of the shuffled request")
        same_state(state(a), state(b), "solver after the shuffled request")
    else:
        out = b.run([ts[-1], ts[0], ts[-1]])
        exact(ref[1][[-1, 0, -1]], out[1], "states with fewer other times")
        for t, y in zip(ts, ref[1]):
            exact(y, c.run(t)[1][0], "state at %r on its own" % t)
        same_state(state(a), state(c), "solver after the separate requests")
