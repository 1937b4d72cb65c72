"""Order conditions of the tableau that the real code uses, read off by probing one step.

The rhs gives a new unit vector for every new point it is asked at, so the states the
code asks at (and the result) spell out the coefficients it used."""
from nbv.specs.tables import gamma, size
from .util import *

BUDGET = 40


def cases(rng, tier):
    for i in range(4 * len(RK)):
        yield dict(cls=RK[i % len(RK)], t0=rng.choice([0.0, 0.5, -2.0]), h=rng.choice([1.0, 0.5, 0.125]), d=rng.choice([64, 65]), steps=1 + (i // len(RK)) % 3,
                   y0=rng.choice([0.0, 1.0, 0.25]))


def check(case):
    cls, h, d = case["cls"], case["h"], case["d"]
    seen = {}

    def rhs(t, y):
        k = (float(t), tuple(np.asarray(y, float).tolist()))
        if k not in seen:
            seen[k] = len(seen) % d
            asked.append((float(t), np.array(y)))
        v = np.zeros(d)
        v[seen[k]] = 1.0
        return v
    asked = []
    y0 = np.full(d, case["y0"])
    kw = dict(first_step=h, atol=1e9, max_step=h) if cls in ADAPTIVE else dict(h=h)
    s = getattr(nbkode, cls)(rhs, case["t0"], y0, **kw)
    for n in range(case["steps"] - 1):
        s.step()
    t, y, f = float(s.t), np.array(s.y), np.array(s.f)
    known = (t, tuple(y.tolist()))
    assert known in seen, "the rhs was never asked at the current point"
    asked[:] = [(t, y)]
    cols = [seen[known]]
    total = len(seen)
    s.step()
    yn = np.array(s.y)
    cols += list(range(total, len(seen)))
    n = len(asked)
    assert len(seen) <= d and n == len(cols), "more evaluations than the probe can tell apart"
    A = np.array([(a - y)[cols] / h for _, a in asked])
    b = (yn - y)[cols] / h
    rest = np.delete(np.array([a - y for _, a in asked] + [yn - y]), cols, axis=1)
    assert np.max(np.abs(rest), initial=0) < 1e-9, "the step uses derivatives of other points"
    c = np.array([(a - t) / h for a, _ in asked])
    assert abs(float(s.t) - t - h) < 1e-12, "the step ends at %r" % s.t
    assert np.allclose(A.sum(1), c, atol=1e-9), "stage times %s do not match the row sums %s" % (c.tolist(), A.sum(1).tolist())

    for tree, res in conditions(A, b, ORDER[cls]):
        assert abs(res) < 1e-9, "order condition of the tree %s (order %d) is violated by %.3g" % (tree, size(tree), res)


def conditions(A, b, p):
    """Residuals in floating point."""
    from nbv.specs.tables import trees
    A, b = np.array(A, float), np.array(b, float)
    memo = {}

    def phi(t):
        if t not in memo:
            r = np.ones(len(b))
            for x in t:
                r = r * (A @ phi(x))
            memo[t] = r
        return memo[t]
    for n in range(1, p + 1):
        for t in trees(n):
            yield t, float(b @ phi(t)) - 1.0 / gamma(t)
