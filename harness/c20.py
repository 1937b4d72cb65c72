"""Construction."""
from .util import *

BUDGET = 20


def cases(rng, tier):
    for i in range(6000):
        c = problem(rng, dims=(1, 2, 3, 4), hs=(0.01, 0.1, 0.25))
        c["y0"] = rng.choice(["array", "list", "tuple", "ints", "int", "float", "npscalar", "f32", "view"])
        c["t0type"] = rng.choice(["float", "int", "np", "np0d"])
        c["params"] = rng.choice([None, "list", "array", "tuple", "scalar", "empty", "rows"])
        c["first"] = rng.random() < 0.5
        c["opts"] = {k: v for k, v in dict(atol=rng.choice([1e-8, 0.0, 0]), rtol=1e-5, min_step=rng.choice([1e-12, 0.0]), max_step=rng.choice([0.05, 0.5, 7.0]),
                                                min_factor=rng.choice([0.3, 0.0]), max_factor=rng.choice([4.0, 1.0]), safety_factor=rng.choice([0.7, 1])).items() if rng.random() < 0.4}
        c["t_bound"] = rng.choice([None, 100.0])
        c["noh"] = rng.random() < 0.2
        yield c


def check(case):
    cls, base = getattr(nbkode, case["cls"]), rhs_of(case)
    d = case["d"]
    vals = np.round(y0_of(case) * 3)
    y0 = {"array": lambda: vals.copy(), "list": lambda: vals.tolist(), "tuple": lambda: tuple(vals.tolist()), "ints": lambda: [int(v) for v in vals], "int": lambda: 2,
          "float": lambda: 1.5, "npscalar": lambda: np.float64(2.5), "f32": lambda: vals.astype(np.float32), "view": lambda: np.repeat(vals, 2)[::2]}[case["y0"]]()
    if case["y0"] in ("int", "float", "npscalar"):
        case = dict(case, d=1)
        base, d = rhs_of(case), 1
    t0 = {"float": float, "int": lambda v: int(round(v)), "np": np.float64, "np0d": np.array}[case["t0type"]](case["t0"])
    got = []
    P = {None: None, "list": [1.5, 2.0], "array": np.array([1.5, 2.0]), "tuple": (1.5, 2.0), "scalar": 1.5, "empty": [], "rows": np.array([[1.5, 2.0], [3.0, 4.0]])[:, 0]}[case["params"]]
    if P is None:
        def rhs(t, y):
            got.append((t, np.array(y)))
            return base(t, y)
        full = base
    else:
        def rhs(t, y, p):
            got.append((t, np.array(y)))
            assert np.array_equal(np.atleast_1d(np.asarray(p, float)), np.atleast_1d(np.asarray(P, float))), "params arrive as %r" % (p,)
            q = np.atleast_1d(np.asarray(p, float))
            return base(t, y) * (q[0] if q.size else 1.0)
        full = lambda t, y: base(t, y) * (np.atleast_1d(np.asarray(P, float))[0] if np.size(P) else 1.0)
    kw = {}
    adaptive = case["cls"] in ADAPTIVE
    if adaptive:
        kw.update(case["opts"])
        if case["first"]:
            kw["first_step"] = case["h"]
    elif not case["noh"]:
        kw["h"] = case["h"]
    if case["cls"] in MULTI:
        kw["first_stepper_cls"] = None
    if case["t_bound"] is not None:
        kw["t_bound"] = case["t_bound"]
    s = cls(rhs, t0, y0, P, **kw) if P is not None else cls(rhs, t0, y0, **kw)
    exact(float(t0), float(s.t), "t")
    want = np.atleast_1d(np.asarray(y0, dtype=float))
    exact(want, s.y, "y")
    assert s.y.dtype == float, "y has dtype %s" % s.y.dtype
    exact(full(float(t0), want), s.f, "f")
    exact(case["t_bound"] if case["t_bound"] is not None else np.inf, s.t_bound, "t_bound")
    if adaptive:
        opt = dict(DEFAULTS, min_step=1e-15, **{})
        opt.update(case["opts"])
        for k, v in opt.items():
            assert getattr(s.options, k) == v, "option %s is %r, expected %r" % (k, getattr(s.options, k), v)
        if case["first"]:
            exact(min(case["h"], opt["max_step"]), float(s.h), "first step size")
        assert not (case["first"] or opt["atol"]) or 0 < s.h <= opt["max_step"], "first step size %r" % s.h
    else:
        exact(1.0 if case["noh"] else case["h"], float(s.h), "step size")
    if case["noh"] and not adaptive or adaptive and not case["opts"].get("atol", 1):
        return
    y = np.array(s.y)
    ex, _ = raises(s.step, RuntimeError)
    if not ex:
        exact(full(float(s.t), np.array(s.y)), s.f, "derivative after a step is that of the given rhs with its params")
