"""Registry and case-insensitive mapping against plain-Python models."""
import itertools

from nbkode.util import CaseInsensitiveDict
from .util import *

BUDGET = 20
ALIASES = {}
GROUP = {"Runge-Kutta": RK, "Multistep": None}


def cases(rng, tier):
    yield dict(kind="names")
    yield dict(kind="filters")
    yield dict(kind="claims")
    keys = ["a", "A", "Ab", "aB", "AB", "ab", "x", "X", "ß", "É", "é", ""]
    for i in range(3000):
        yield dict(kind="dict", ops=[(rng.choice(["set", "set", "set", "del", "get", "in", "pop", "update", "eq", "copy", "setdefault", "clear"]), rng.choice(keys), rng.randrange(5))
                                     for _ in range(rng.choice([2, 5, 12]))])


def check(case):
    globals()["check_" + case["kind"]]()if case["kind"] != "dict" else check_dict(case)


def check_names():
    for n in CONCRETE:
        cls = getattr(nbkode, n)
        for k in (n, n.lower(), n.upper(), n.swapcase(), n.title()):
            assert nbkode.get_solver(k) is cls, "get_solver(%r) is %r" % (k, nbkode.get_solver(k))
        for a in cls.ALIASES:
            for k in (a, a.lower(), a.upper(), a.swapcase()):
                assert nbkode.get_solver(k) is cls, "get_solver(%r) is %r" % (k, nbkode.get_solver(k))
    for k in ("", "RungeKutta", "Runge", "Solver", "Runge5", "Multistep", "DOP854", "nope", "AdamsBashforth6", "Runge2 "):
        ex, r = raises(lambda: nbkode.get_solver(k), ValueError, KeyError)
        assert ex is not None, "get_solver(%r) gave %r" % (k, r)
    listed = nbkode.list_solvers(include_alias=False)
    assert sorted(listed) == sorted(CONCRETE), "list_solvers: %s" % listed


def check_filters():
    from nbkode.multistep.core import Multistep
    from nbkode.runge_kutta.core import RungeKutta
    classes = {n: getattr(nbkode, n) for n in CONCRETE}
    groups = nbkode.get_groups()
    of = {}
    for g in groups:
        for c in nbkode.get_solvers(g):
            assert c.__name__ not in of, "%s is in two groups" % c.__name__
            of[c.__name__] = g
    assert sorted(of) == sorted(CONCRETE), "groups hold %s" % sorted(of)
    facts = {n: dict(implicit=n in IMPLICIT, fixed_step=n in FIXED, runge_kutta=n in RK, multistep=issubclass(classes[n], Multistep)) for n in CONCRETE}
    for n in CONCRETE:
        assert facts[n]["runge_kutta"] == issubclass(classes[n], RungeKutta)
    for gs in [()] + [(g,) for g in groups] + [tuple(groups), tuple(reversed(groups))] + [(g.upper(),) for g in groups] + [(groups[0], groups[-1].lower())]:
        for flags in itertools.product([None, True, False], repeat=4):
            kw = {k: v for k, v in zip(("implicit", "fixed_step", "runge_kutta", "multistep"), flags) if v is not None}
            got = [c.__name__ for c in nbkode.get_solvers(*gs, **kw)]
            lower = [g.lower() for g in gs]
            want = [n for n in CONCRETE if (not gs or of[n].lower() in lower) and all(facts[n][k] == v for k, v in kw.items())]
            assert sorted(got) == sorted(want), "get_solvers(%s, %s): extra %s, missing %s" % (gs, kw, sorted(set(got) - set(want)), sorted(set(want) - set(got)))
    ex, r = raises(lambda: nbkode.get_solvers("nope"), KeyError, ValueError)
    assert ex is not None, "get_solvers('nope') gave %r" % (r,)


def check_claims():
    """Reported characteristics against behaviour."""
    for n in CONCRETE:
        cls = getattr(nbkode, n)
        calls = []

        def rhs(t, y):
            calls.append(float(t))
            return -0.5 * y + np.sin(3 * t)
        kw = dict(h=0.1) if n in FIXED else dict(first_step=0.01)
        s = cls(rhs, 0.0, np.array([1.0, 0.5]), **kw)
        hs = []
        for _ in range(6):
            t = float(s.t)
            s.step()
            hs.append(round(float(s.t) - t, 12))
        assert cls.FIXED_STEP == (len(set(hs)) == 1), "%s: FIXED_STEP=%s, step sizes %s" % (n, cls.FIXED_STEP, hs)
        # an equation was solved if the new time was evaluated at several states before the point was recorded
        calls.clear()
        t = float(s.t)
        s.step()
        assert bool(cls.IMPLICIT) == (calls.count(float(s.t)) > 3), "%s: IMPLICIT=%s, evaluations at the new time: %d" % (n, cls.IMPLICIT, calls.count(float(s.t)))


def check_dict(case):
    d, m = CaseInsensitiveDict(), {}          # model: lower -> (spelling, value), insertion ordered
    for op, k, v in case["ops"]:
        low = k.lower()
        if op == "set":
            d[k] = v
            m[low] = (k, v)
        elif op == "setdefault":
            got = d.setdefault(k, v)
            if low not in m:
                m[low] = (k, v)
            assert got == m[low][1]
        elif op == "update":
            d.update({k: v})
            m[low] = (k, v)
        elif op in ("del", "pop"):
            ex, r = raises(lambda: d.__delitem__(k) if op == "del" else d.pop(k), KeyError)
            assert (ex is not None) == (low not in m), "%s(%r): %r" % (op, k, ex or r)
            old = m.pop(low, None)
            assert op == "del" or ex or r == old[1]
        elif op == "get":
            ex, r = raises(lambda: d[k], KeyError)
            assert (ex is not None) == (low not in m), "[%r]: %r" % (k, ex or r)
            assert ex or r == m[low][1], "[%r] is %r, expected %r" % (k, r, m[low][1])
            assert d.get(k, "none") == (m[low][1] if low in m else "none")
        elif op == "in":
            assert (k in d) == (low in m), "%r in %r" % (k, d)
        elif op == "copy":
            c = d.copy()
            assert c == d and c is not d and dict(c.items()) == dict(d.items()), "copy of %r is %r" % (d, c)
            c["zz" + k] = 1
            assert "zz" + k not in d
        elif op == "clear" and v == 0:
            d.clear()
            m.clear()
        elif op == "eq":
            assert d == {a.swapcase() if a.swapcase().lower() == a.lower() else a: b for a, b in m.values()}, "equality ignores case"
            assert not d == dict([("other", 1)] + [(a, b) for a, b in m.values()])
            assert d != 5
        assert len(d) == len(m), "%d entries, expected %d" % (len(d), len(m))
        assert sorted(d) == sorted(a for a, b in m.values()), "spellings %s, expected %s" % (sorted(d), sorted(a for a, b in m.values()))
        assert dict(d.items()) == {a: b for a, b in m.values()}
        assert dict(d.lower_items()) == {a: b for a, (_, b) in m.items()}
