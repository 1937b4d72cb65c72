"""Implicit steps that cannot be solved must raise and leave the solver alone; the others are solved."""
from .util import *

BUDGET = 25
HARD = {
    "square": lambda k: (lambda t, y: k * (y * y + 1)),
    "jump": lambda k: (lambda t, y: -k * (np.sign(y - 0.5) + 0.25)),
    "steep": lambda k: (lambda t, y: -k * (y - np.sin(t))),
    "root": lambda k: (lambda t, y: k * np.sqrt(np.abs(y)) + 1.0),
    "exp": lambda k: (lambda t, y: k * np.exp(np.minimum(y, 50))),
    "cubic": lambda k: (lambda t, y: -k * (y ** 3 - np.roll(y, 1))),
}
SMOOTH = ("square", "steep", "cubic")


def cases(rng, tier):
    for i in range(4000):
        yield dict(cls=IMPLICIT[i % len(IMPLICIT)], rhs=rng.choice(list(HARD)), k=rng.choice([0.5, 3.0, 20.0, 400.0]), d=rng.choice([1, 1, 2, 3]),
                   h=rng.choice([0.01, 0.1, 0.7]), seed=rng.randrange(10 ** 6), t0=rng.choice([0.0, 2.0]), steps=3)


def check(case):
    rhs = HARD[case["rhs"]](case["k"])
    ex, s = raises(lambda: getattr(nbkode, case["cls"])(rhs, case["t0"], y0_of(case), h=case["h"], first_stepper_cls=None), RuntimeError, np.linalg.LinAlgError)
    if ex:
        return
    a, b, bn = lmm(case["cls"])
    for n in range(case["steps"]):
        before = state(s)
        ex, _ = raises(s.step, RuntimeError, np.linalg.LinAlgError)
        if ex is not None:
            same_state(before, state(s), "after a step that raised")
            return
        h = before["h"]
        K = sum(float(x) * v for x, v in zip(a[::-1], before["ys"][::-1])) + h * sum(float(x) * v for x, v in zip(b[::-1], before["fs"][::-1]))
        if not np.all(np.isfinite(before["fs"])) or not np.all(np.isfinite(before["ys"])):
            return
        r = s.y - h * float(bn) * np.array(rhs(s.t, s.y)) - K
        size = 1 + np.max(np.abs(K)) + np.max(np.abs(h * float(bn) * rhs(s.t, s.y)))
        if case["d"] > 1:
            assert np.linalg.norm(r) <= 1.49e-8 + 1e-13 * size, "residual %s of the recorded state" % r
        elif case["rhs"] in SMOOTH:
            # |last update| <= 1.48e-8 for the secant iteration: the residual is about slope times that
            slope = 1 + abs(h * float(bn)) * case["k"] * (3 * max(1, abs(s.y[0])) ** 2 + 1)
            assert abs(r[0]) <= 1e-6 * slope + 1e-12 * size, "residual %s of the recorded state %s" % (r, s.y)
