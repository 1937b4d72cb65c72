"""Shared pieces of the concrete replays: problems, solvers, independent reference formulas."""
import copy
import math
import warnings

import numpy as np

import nbkode
from nbv.specs.tables import (AB, AM, BDF, BUTCHER, DENSE, DOP_D, DOP_EXTRA_A, DOP_EXTRA_C, ERROR, ERROR_ORDER, ORDER, lmm)  # noqa: F401

CONCRETE = ["AdamsBashforth1", "AdamsBashforth2", "AdamsBashforth3", "AdamsBashforth4", "AdamsBashforth5",
            "AdamsMoulton1", "AdamsMoulton2", "AdamsMoulton3", "AdamsMoulton4", "AdamsMoulton5",
            "ForwardEuler", "BackwardEuler", "BDF1", "BDF2", "BDF3", "BDF4", "BDF5", "BDF6",
            "Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8", "RungeKutta23", "RungeKutta45", "DOP853"]
MULTI = CONCRETE[:18]
ADAMS_B, ADAMS_M, BDFS = CONCRETE[:5] + ["ForwardEuler"], CONCRETE[5:10] + ["BackwardEuler"], CONCRETE[12:18]
IMPLICIT = ADAMS_M + BDFS
RK = CONCRETE[18:]
ADAPTIVE = ["RungeKutta23", "RungeKutta45", "DOP853"]
FIXED = [c for c in CONCRETE if c not in ADAPTIVE]


def order(cls):
    """Number of points of a multistep formula."""
    a, b, bn = lmm(cls)
    return {"ForwardEuler": 1, "BackwardEuler": 1}.get(cls) or len([x for x in (a if len(a) > len(b) else b)])


# ---------------------------------------------------------------- problems

def rhs_of(case):
    d, kind = case["d"], case["rhs"]
    r = np.random.RandomState(case["seed"])
    A = r.uniform(-1, 1, (d, d))
    A = A - A.T - 0.3 * np.diag(np.abs(r.uniform(0, 1, d)))
    b, w = r.uniform(-1, 1, d), r.uniform(0.5, 3, d)
    if kind == "linear":
        return lambda t, y: A @ y + b
    if kind == "forced":
        return lambda t, y: A @ y + b * np.sin(w * t)
    if kind == "time":
        return lambda t, y: b * np.cos(w * t) + 0 * y
    if kind == "logistic":
        return lambda t, y: y * (1 - y) * np.abs(b)
    if kind == "pendulum":
        return lambda t, y: np.sin(np.roll(y, 1)) + 0.1 * b * t
    if kind == "constant":
        return lambda t, y: b + 0 * y
    if kind == "zero":
        return lambda t, y: 0 * y
    raise ValueError(kind)


RHS = ["linear", "forced", "time", "logistic", "pendulum"]


def y0_of(case):
    return np.random.RandomState(case["seed"] + 1).uniform(0.1, 1.5, case["d"])


def make(case, **over):
    c = dict(case, **over)
    kw = dict(c.get("kw", {}))
    if c["cls"] in ADAPTIVE:
        if c.get("h") is not None:
            kw.setdefault("first_step", c["h"])
    else:
        kw["h"] = c["h"]
    if c.get("t_bound") is not None:
        kw["t_bound"] = c["t_bound"]
    return getattr(nbkode, c["cls"])(rhs_of(c), c["t0"], y0_of(c), **kw)


def problem(rng, classes=CONCRETE, rhs=RHS, dims=(1, 1, 2, 3, 5), hs=(0.01, 0.03, 0.1, 0.2)):
    return dict(cls=rng.choice(classes), rhs=rng.choice(rhs), d=rng.choice(dims), seed=rng.randrange(10 ** 6), h=rng.choice(hs),
                t0=rng.choice([0.0, 0.0, 1.5, -2.0, 7.25, round(rng.uniform(-5, 5), 3)]))


# ---------------------------------------------------------------- states

def hist(s):
    return np.array(s.cache.ts), np.array(s.cache.ys), np.array(s.cache.fs)


def state(s):
    return dict(t=float(s.t), y=np.array(s.y), f=np.array(s.f), h=float(s.h), ts=np.array(s.cache.ts), ys=np.array(s.cache.ys), fs=np.array(s.cache.fs))


def same_state(a, b, what="state", rtol=0.0, atol=0.0):
    for k in a:
        ok = np.shape(a[k]) == np.shape(b[k]) and np.allclose(a[k], b[k], rtol=rtol, atol=atol, equal_nan=True)
        assert ok, "%s: %s is %s, expected %s" % (what, k, np.asarray(b[k]).tolist(), np.asarray(a[k]).tolist())


def close(a, b, what, rtol=1e-9, atol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, "%s: shape %s, expected %s" % (what, b.shape, a.shape)
    assert np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True), "%s: %s, expected %s" % (what, b.tolist(), a.tolist())


def exact(a, b, what):
    close(a, b, what, rtol=0, atol=0)


class Trace:
    """An independent solver of the same problem, advanced one step at a time; remembers it at every step."""

    def __init__(self, case, **over):
        s = make(case, **over)
        self.at = [copy.deepcopy(s)]
        self.s = s
        self.stopped = False

    def extend(self):
        if self.stopped:
            return False
        try:
            self.s.step()
        except RuntimeError:
            self.stopped = True
            return False
        self.at.append(copy.deepcopy(self.s))
        return True

    def upto(self, t):
        while float(self.s.t) < t and self.extend():
            pass
        return float(self.s.t) >= t

    def steps(self, n):
        while len(self.at) <= n and self.extend():
            pass
        return len(self.at) > n

    def times(self):
        return [float(s.t) for s in self.at]

    def value(self, t, start=0):
        """Interpolated solution in the step that contains t; within the history at `start` in that one."""
        if t <= float(self.at[start].t):
            return np.array(self.at[start].interpolate(t))
        for k in range(start + 1, len(self.at)):
            if t <= float(self.at[k].t):
                return np.array(self.at[k].interpolate(t))
        raise LookupError(t)


# ---------------------------------------------------------------- reference formulas

def tab(x):
    return np.array([float(v) for v in x])


def rk_stages(cls, rhs, t, y, h, f0=None):
    A, b, c = BUTCHER[cls]
    K = []
    for i in range(len(A)):
        yi = y + h * sum((float(a) * k for a, k in zip(A[i], K)), np.zeros_like(y))
        K.append(np.array(rhs(t + float(c[i]) * h, yi), float))
    return K, y + h * sum((float(w) * k for w, k in zip(b, K)), np.zeros_like(y))


def rk_error_norm(cls, rhs, t, y, h, K, ynew, atol, rtol):
    K = K + [np.array(rhs(t + h, ynew), float)]
    scale = atol + rtol * np.maximum(np.abs(ynew), np.abs(y))
    E = [sum(float(e) * k for e, k in zip(row, K)) / scale for row in ERROR[cls]]
    n = len(y)
    if cls != "DOP853":
        return abs(h) * math.sqrt(np.sum(E[0] ** 2) / n)
    e5, e3 = np.sum(E[0] ** 2), np.sum(E[1] ** 2)
    if e5 == 0 and e3 == 0:
        return 0.0
    return abs(h) * e5 / math.sqrt((e5 + 0.01 * e3) * n)


DEFAULTS = dict(atol=1e-6, rtol=1e-3, max_step=math.inf, min_factor=0.2, max_factor=10.0, safety_factor=0.9)


def adaptive_step(cls, rhs, t, y, h, opt):
    """(t', y', next h, number of attempts, h used, closest distance of an error to 1)"""
    o = dict(DEFAULTS, **opt)
    n, margin = 0, math.inf
    while True:
        n += 1
        K, yn = rk_stages(cls, rhs, t, y, h)
        N = rk_error_norm(cls, rhs, t, y, h, K, yn, o["atol"], o["rtol"])
        margin = min(margin, abs(N - 1))
        if N == 0:
            fac = o["max_factor"]
        else:
            fac = min(o["max_factor"], max(o["min_factor"], o["safety_factor"] * N ** (-1.0 / (ERROR_ORDER[cls] + 1))))
        hn = min(h * fac, o["max_step"])
        if N < 1:
            return t + h, yn, hn, n, h, margin
        h = hn
        if n > 200:
            raise LookupError("too many attempts")


def dense_value(cls, rhs, t0, y0, h, t):
    """Published dense output of the step of size h from (t0, y0)."""
    K, yn = rk_stages(cls, rhs, t0, y0, h)
    K = K + [np.array(rhs(t0 + h, yn), float)]
    x = (t - t0) / h
    if cls != "DOP853":
        return y0 + h * sum(k * sum(float(p) * x ** (m + 1) for m, p in enumerate(row)) for k, row in zip(K, DENSE[cls]))
    for a, c in zip(DOP_EXTRA_A, DOP_EXTRA_C):
        yi = y0 + h * sum((float(v) * k for v, k in zip(a, K)), np.zeros_like(y0))
        K.append(np.array(rhs(t0 + float(c) * h, yi), float))
    dy = yn - y0
    F = [dy, h * K[0] - dy, 2 * dy - h * (K[12] + K[0])] + [h * sum(float(v) * k for v, k in zip(row, K)) for row in DOP_D]
    y = np.zeros_like(y0)
    for i, f in enumerate(reversed(F)):
        y = (y + f) * (x if i % 2 == 0 else 1 - x)
    return y + y0


def hermite(ts, ys, fs, t):
    """Cubic Hermite polynomial of the recorded step that contains t."""
    k = 1
    while k < len(ts) - 1 and ts[k] < t:
        k += 1
    h = ts[k] - ts[k - 1]
    if h == 0:
        return ys[k]
    x = (t - ts[k - 1]) / h
    return ((1 + 2 * x) * (1 - x) ** 2 * ys[k - 1] + x * (1 - x) ** 2 * h * fs[k - 1] + x * x * (3 - 2 * x) * ys[k] + x * x * (x - 1) * h * fs[k])


def dense_reference(case, s, t):
    """Value of the published interpolant of solver s (a snapshot) at t."""
    ts, ys, fs = hist(s)
    if case["cls"] in ADAPTIVE and ts[-1] > ts[-2]:
        return dense_value(case["cls"], rhs_of(case), ts[-2], ys[-2], ts[-1] - ts[-2], t)
    return hermite(ts, ys, fs, t)


def raises(f, *excs):
    """(exception or None, result)"""
    try:
        return None, f()
    except excs as ex:
        return ex, None


warnings.simplefilter("ignore")
