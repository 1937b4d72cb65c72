"""Events against the sign changes seen by an independent solver advanced one step at a time."""
from .util import *

BUDGET = 30
# (kind, parameter)
KINDS = ["comp", "time", "sin", "product", "flat", "zero", "step", "tiny", "touch"]


def event(spec, d):
    kind, c, i = spec["g"], spec["c"], spec["i"] % d
    g = {
        "comp": lambda t, y: y[i] - c,
        "time": lambda t, y: t - c,
        "sin": lambda t, y: math.sin(6 * t + c) + 0 * y[0],
        "product": lambda t, y: (t - c) * (y[i] - 0.5),
        "flat": lambda t, y: max(t - c, 0.0) + 0 * y[0],
        "zero": lambda t, y: 0.0 * y[0],
        "step": lambda t, y: 1.0 if t >= c else -1.0,
        "tiny": lambda t, y: 1e-170 * (y[i] - c),
        "touch": lambda t, y: abs(math.sin(5 * t + c)) * (t - c),
    }[kind]

    def f(t, y):
        return g(t, y)
    if spec["direction"] is not None:
        f.direction = spec["direction"]
    if spec.get("terminal") is not None:
        f.terminal = spec["terminal"]
    return f


def specs(rng, case, terminal=False):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        g = rng.choice(KINDS)
        n = rng.choice([0, 1, 2, 3])
        c = {"comp": round(rng.uniform(0, 1.2), 3), "tiny": round(rng.uniform(0, 1.2), 3), "sin": round(rng.uniform(0, 6), 3)}.get(
            g, case["t0"] + case["h"] * rng.choice([n, n, n + 0.5, round(rng.uniform(0, 12), 3), -1]))
        out.append(dict(g=g, c=c, i=rng.randrange(5), direction=rng.choice([None, 0, 1, -1, 2.5, -0.3]), terminal=(rng.random() < 0.6 if terminal else rng.choice([None, False]))))
    return out


def cases(rng, tier):
    for i in range(6000):
        c = problem(rng, dims=(1, 2, 3), hs=(0.05, 0.1))
        c["events"] = specs(rng, c)
        c["first"] = rng.choice([0, 0, 1, 3])
        c["times"] = [round(rng.uniform(0.05, 12), 3) for _ in range(rng.choice([1, 1, 2, 5]))]
        c["single"] = rng.random() < 0.5
        yield c


def crossings(g, direction, tr, k0, k1):
    """[(step, t_lo, t_hi, at_end)] of the steps k0 -> k1, by the rule of the property."""
    out = []
    for k in range(k0 + 1, k1 + 1):
        a, b = tr.at[k - 1], tr.at[k]
        va, vb = g(float(a.t), np.array(a.y)), g(float(b.t), np.array(b.y))
        up, down = va <= 0 <= vb, va >= 0 >= vb
        s = np.sign(direction or 0)
        hit = (up and s > 0) or (down and s < 0) or ((up or down) and s == 0)
        # a zero that ended one step is not recorded again at the start of the next
        if hit and va == 0 and vb != 0 and out and out[-1][0] == k - 1 and out[-1][3]:
            continue
        if hit:
            out.append((k, float(a.t), float(b.t), vb == 0, va == 0))
    return out


def compare(g, cr, tr, ts, ys, what):
    assert len(ts) == len(ys), "%s: %d times, %d states" % (what, len(ts), len(ys))
    assert len(ts) == len(cr), "%s: recorded at %s, crossings in the steps %s" % (what, [float(t) for t in ts], [(c[1], c[2]) for c in cr])
    for t, y, (k, a, b, at_end, at_start) in zip(ts, ys, cr):
        assert a <= t <= b, "%s: recorded at %r, outside the step [%r, %r]" % (what, t, a, b)
        close(tr.at[k].interpolate(float(t)), y, "%s: state at %r" % (what, t), rtol=1e-10, atol=1e-12)
        if at_end:
            assert t == b, "%s: recorded at %r, the function is zero at the end of the step %r" % (what, t, b)
            continue
        val = g(float(t), np.array(y))
        if at_start:
            assert t == a or abs(val) < 1.6e-8, "%s: recorded at %r" % (what, t)
        elif abs(val) > 1.6e-8:
            e = 4 * max(np.spacing(max(abs(a), abs(b))), (b - a) * 2.0 ** -48)
            lo, hi = max(a, t - e), min(b, t + e)
            at = lambda x: g(x, np.array(tr.at[k].interpolate(x)))
            assert np.sign(at(lo)) * np.sign(at(hi)) <= 0, "%s: no crossing at %r (value %r) in [%r, %r]" % (what, t, val, a, b)


def check(case):
    s = make(case)
    tr = Trace(case)
    k0 = case["first"]
    if not tr.steps(k0 + 2):
        return
    s.skip(n=k0) if k0 else None
    T = tr.times()
    want = sorted(T[k0] + x * case["h"] for x in case["times"])
    evs = [event(e, case["d"]) for e in case["events"]]
    arg = evs[0] if len(evs) == 1 and case["single"] else evs
    ex, out = raises(lambda: s.run_events(want, arg), RuntimeError)
    if ex:
        assert case["cls"] in IMPLICIT, repr(ex)
        return
    assert tr.upto(want[-1]), "the reference stopped"
    k1 = k0
    while tr.times()[k1] < want[-1]:
        k1 += 1
    assert len(out[2]) == len(evs) and len(out[3]) == len(evs), "%d events, %d lists" % (len(evs), len(out[2]))
    for e, spec, ts, ys in zip(evs, case["events"], out[2], out[3]):
        compare(e, crossings(e, spec["direction"], tr, k0, k1), tr, ts, ys, "event %s" % spec)
    same_state(state(tr.at[k1]), state(s), "solver afterwards")
