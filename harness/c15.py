"""Terminal events against the crossings seen by an independent solver."""
from .c13 import crossings, event, specs
from .util import *

BUDGET = 30


def cases(rng, tier):
    for i in range(6000):
        c = problem(rng, dims=(1, 2, 3), hs=(0.05, 0.1))
        if rng.random() < 0.3:
            c["cls"] = rng.choice(ADAPTIVE)
            c["kw"] = rng.choice([{}, dict(rtol=1e-2, atol=1e-2), dict(rtol=1e-7)])
        c["events"] = specs(rng, c, terminal=rng.random() < 0.85)
        for e in c["events"]:
            if e["g"] == "zero":
                e["g"] = "sin"
        c["first"] = rng.choice([0, 0, 1, 3])
        c["times"] = [round(rng.uniform(0.05, 14), 3) for _ in range(rng.choice([1, 2, 4, 7, 12]))]
        c["sort"] = rng.random() < 0.5
        c["past"] = rng.random() < 0.2
        yield c


def check(case):
    s = make(case)
    tr = Trace(case)
    k0 = case["first"]
    if not tr.steps(k0 + 2):
        return
    s.skip(n=k0) if k0 else None
    t0 = tr.times()[k0]
    want = [t0 + x * case["h"] for x in case["times"]]
    if case["past"]:
        want.append(float(tr.at[k0].cache.ts[0]))
    if case["sort"]:
        want = sorted(want)
    if not tr.upto(max(want)):
        return
    evs = [event(e, case["d"]) for e in case["events"]]
    k1 = k0
    while tr.times()[k1] < max(want):
        k1 += 1
    # first step with a crossing of a terminal event
    cr = [crossings(e, sp["direction"], tr, k0, k1) for e, sp in zip(evs, case["events"])]
    hits = [(c[0], i, c) for i, (l, sp) in enumerate(zip(cr, case["events"])) if sp["terminal"] for c in l]
    # a step in which a terminal event triggers again at its start: left to C13 (same as scipy)
    ex, out = raises(lambda: s.run_events(want, evs), RuntimeError)
    if ex:
        assert case["cls"] in IMPLICIT, repr(ex)
        return
    ts, ys, te, ye = out
    if not hits:
        exact(want, ts, "times without a terminal crossing")
        close([tr.value(t, k0) for t in want], ys, "states without a terminal crossing", rtol=1e-10, atol=1e-12)
        return
    ke = min(h[0] for h in hits)
    a, b = tr.times()[ke - 1], tr.times()[ke]
    cand = [i for k, i, c in hits if k == ke]
    ends = [float(te[i][-1]) for i in cand if len(te[i])]
    assert ends, "the terminal event %s crosses in [%r, %r] but nothing was recorded (%s)" % ([case["events"][i] for i in cand], a, b, te)
    tend = min(ends)
    assert a <= tend <= b, "terminated at %r, the crossing is in [%r, %r]" % (tend, a, b)
    for i, l in enumerate(te):
        assert all(t <= tend for t in l), "event %d reported at %s, after the termination at %r" % (i, [float(t) for t in l], tend)
        n = len([c for c in cr[i] if c[0] < ke])
        assert len(l) in (n, n + 1), "event %d: %d recorded, %d crossings before the last step" % (i, len(l), n)
    yend = tr.at[ke].interpolate(tend)
    # what the solver is already past (a step back, interpolated) is not subject to the events of this call
    before = [t for t in want if t < tend or t < t0]
    if tend == t0 and any(t == t0 for t in want):
        return  # a terminal event that is zero at the very start, and the start is requested: either report is right
    if len(before) == len(want):
        exact(want, ts, "times, all before the termination at %r" % tend)
        close([tr.value(t, k0) for t in want], ys, "states", rtol=1e-10, atol=1e-12)
        return
    assert len(ts) == len(before) + 1, "terminated at %r: returned times %s for the request %s" % (tend, np.asarray(ts).tolist(), want)
    assert len(ys) == len(ts), "%d times, %d states" % (len(ts), len(ys))
    pos = [i for i, t in enumerate(ts) if t == tend]
    assert pos, "the termination time %r is not among the returned times %s" % (tend, np.asarray(ts).tolist())
    rest = [(t, y) for i, (t, y) in enumerate(zip(ts, ys)) if i != pos[-1]]
    exact(before, [t for t, _ in rest], "times before the termination")
    if before:
        close([tr.value(t, k0) for t in before], [y for _, y in rest], "states before the termination at %r" % tend, rtol=1e-10, atol=1e-12)
    close(yend, ys[pos[-1]], "state at the termination", rtol=1e-10, atol=1e-12)
    if case["sort"]:
        exact(tend, ts[-1], "last time")
