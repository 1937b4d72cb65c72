"""The solver registry and its case-insensitive mapping: C18.

Strings are opaque: a key is known by its spelling and by its case-folded form (`lower`), an
arbitrary function; the mapping is verified for every such key, value and content of the store."""
import itertools
import warnings
from .common import *
from .multistep import Finder
from .steps import public_step, setup
from ..engine import Q
from ..runtime import Seq
from ..tasks import add

nb = load()
CORE, UTIL = sys.modules["nbkode.core"], sys.modules["nbkode.util"]
INT = z3.IntSort()
LOWER = z3.Function("lower", INT, INT)
CODES, REAL_STRINGS = {}, []


def code(s):
    """A number for a real string."""
    if s not in CODES:
        CODES[s] = len(CODES)
        REAL_STRINGS.append(s)
    return z3.IntVal(CODES[s])


def same(a, b):
    return bool(ctx().decide(a == b))


class Key:
    """An arbitrary string."""
    __hash__ = lambda self: 0
    kind = "key"
    nbv_opaque = True

    def __init__(self, e):
        self.e = e

    def lower(self):
        return Low(LOWER(self.e))
    casefold = lower

    def __eq__(self, o):
        if type(o) is str:
            c = code(o)
            ctx().assume(LOWER(c) == code(o.lower()))
            return same(self.e, c)
        return same(self.e, o.e) if type(o) is type(self) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r


class Low(Key):
    """The case-folded form of a string."""
    kind = "low"
    __hash__ = Key.__hash__

    def lower(self):
        return self
    casefold = lower

    def __eq__(self, o):
        if type(o) is str:
            return same(self.e, code(o))
        return same(self.e, o.e) if type(o) is Low else NotImplemented


class Val(Key):
    kind = "val"
    __hash__ = Key.__hash__


def shape(entry):
    """The structure of an entry, with its parts."""
    if isinstance(entry, (tuple, list)):
        parts = [shape(x) for x in entry]
        return (type(entry).__name__,) + tuple(p[0] for p in parts), [x for p in parts for x in p[1]]
    if isinstance(entry, Key):
        return entry.kind, [entry.e]
    raise Unsupported("entry of the mapping: %s" % type(entry).__name__)


def build(sh, parts):
    parts = iter(parts)

    def go(s):
        if isinstance(s, tuple):
            return (tuple if s[0] == "tuple" else list)(go(x) for x in s[1:])
        return dict(key=Key, low=Low, val=Val)[s](next(parts))
    return go(sh)


class Store:
    """Contract of the dictionary inside the mapping, with arbitrary content: which case-folded keys are
    there, and for each what the mapping's own __setitem__ stored for some spelling and value."""

    def __init__(self, sample):
        c = ctx()
        k, v, (stored_at, entry) = sample
        self.sh, parts = shape(entry)
        # the entry as a function of spelling and value
        self.fns = [lambda kk, vv, p=p: z3.substitute(p, (k, kk), (v, vv)) for p in parts]
        if not isinstance(stored_at, Low) or not c.entails(stored_at.e == LOWER(k)):
            raise Unsupported("the store is not indexed by the case-folded key")
        has, key, val = [z3.Function(n, INT, s) for n, s in (("has", z3.BoolSort()), ("keyof", INT), ("valof", INT))]
        self.has = lambda l: has(l)
        self.spell, self.val = lambda l: key(l), lambda l: val(l)
        self.parts = [lambda l, f=f: f(key(l), val(l)) for f in self.fns]
        self.n = z3.Int("size")
        self.at = z3.Function("at", INT, INT)
        c.assume(self.n >= 0)

    def inv(self, l):
        """the representation invariant at l: the spelling stored folds to l"""
        ctx().assume(z3.Implies(self.has0(l), LOWER(self.spell0(l)) == l))

    def start(self):
        self.has0, self.spell0, self.val0 = self.has, self.spell, self.val
        return self

    def low(self, k):
        if not isinstance(k, Low):
            raise Unsupported("access to the store with a key that is not case-folded")
        self.inv(k.e)
        return k.e

    def __getitem__(self, k):
        l = self.low(k)
        if not ctx().decide(self.has(l)):
            raise KeyError(k)
        return build(self.sh, [p(l) for p in self.parts])

    def __contains__(self, k):
        return ctx().decide(self.has(self.low(k)))

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __setitem__(self, k, entry):
        l0 = self.low(k)
        sh, parts = shape(entry)
        if sh != self.sh:
            raise Unsupported("an entry of another structure")
        has, n = self.has, self.n
        self.n = z3.If(has(l0), n, n + 1)
        self.has = lambda l: z3.Or(l == l0, has(l))
        self.parts = [lambda l, old=old, e=e: z3.If(l == l0, e, old(l)) for old, e in zip(self.parts, parts)]

    def __delitem__(self, k):
        l0 = self.low(k)
        has, n = self.has, self.n
        if not ctx().decide(has(l0)):
            raise KeyError(k)
        self.n = n - 1
        self.has = lambda l: z3.And(l != l0, has(l))

    def pop(self, k, *default):
        try:
            r = self[k]
        except KeyError:
            if default:
                return default[0]
            raise
        del self[k]
        return r

    def __len__(self):
        raise Unsupported("len")

    def __nbv_seq__(self):
        return self.keys().__nbv_seq__()

    def entries(self, pick):
        at = self.at

        def get(i):
            l = at(dim_expr(i))
            ctx().assume(self.has(l))
            self.inv(l)
            return pick(l)
        return Sequence(self.n, get)

    def values(self):
        return self.entries(lambda l: build(self.sh, [p(l) for p in self.parts]))

    def items(self):
        return self.entries(lambda l: (Low(l), build(self.sh, [p(l) for p in self.parts])))

    def keys(self):
        return self.entries(lambda l: Low(l))
    __iter__ = keys


class Sequence:
    def __init__(self, n, get):
        self.n, self.get = n, get

    def __nbv_seq__(self):
        return Seq(self.n, self.get)


def inner(d):
    """The dictionaries inside a mapping."""
    out = [a for a, v in vars(d).items() if isinstance(v, dict)]
    if len(out) != 1:
        raise Unsupported("the mapping holds %d dictionaries" % len(out))
    return out[0]


def arbitrary():
    """A mapping with arbitrary content."""
    d = UTIL.CaseInsensitiveDict()
    a = inner(d)
    k, v = z3.Ints("sample_key sample_value")
    d[Key(k)] = Val(v)
    (stored,) = list(vars(d)[a].items())
    s = Store((k, v, stored)).start()
    setattr(d, a, s)
    return d, s


L0 = z3.Int("l")      # an arbitrary case-folded key
K0, V0 = z3.Ints("k v")


def observe(d, s, l):
    """What the mapping answers for a key folding to l: (present, value, spelling)"""
    k = z3.Int("probe")
    c = ctx()
    c.assume(LOWER(k) == l)
    try:
        r = d[Key(k)]
        there = True
    except KeyError:
        return False, None
    return there, r


def entries_of(s):
    """Candidate invariants: the list under construction holds the parts of the entries so far."""
    def cands(loop, ints, reals, bools, arrs, lists):
        out = {}
        for n, l, g in lists:
            def holds(st, g=g, part=0):
                l = g(st)
                m = dim_expr(l.length())
                if not l.symbolic and not l.items:
                    return z3.BoolVal(True)
                try:
                    x = l.get(Q)
                except Unsupported:
                    return None
                x = x if isinstance(x, tuple) else (x,)
                if part >= len(x):
                    return z3.BoolVal(True)
                k = s.at(Q)
                ps = dict(zip(shape_kinds(s.sh), s.parts))
                x = x[part]
                want = dict(key=ps["key"], low=lambda l: l, val=ps["val"]).get(getattr(x, "kind", None))
                return None if want is None else z3.Implies(z3.And(Q >= 0, Q < m), x.e == want(k))
            for part in (0, 1):
                out["%s[Q] part %d is that of entry Q [Q]" % (n, part)] = lambda st, h=holds, part=part: h(st, part=part)
        return out
    return cands


def shape_kinds(sh):
    return [k for x in sh[1:] for k in shape_kinds(x)] if isinstance(sh, tuple) else [sh]


def mapping(op):
    def spec():
        c = ctx()
        run = c.run
        d, s = arbitrary()
        s.inv(L0)
        has0, val0 = s.has(L0), s.val0(L0)
        l0 = LOWER(K0)
        s.inv(l0)
        there0 = s.has(l0)
        value_there = s.val0(l0)
        n0 = s.n
        key, val = Key(K0), Val(V0)
        how, r = "done", None
        try:
            if op == "set":
                d[key] = val
            elif op == "get":
                r = d[key]
            elif op == "del":
                del d[key]
            elif op == "in":
                r = key in d
            elif op == "get(default)":
                r = d.get(key, None)
            elif op == "pop":
                r = d.pop(key)
            elif op == "setdefault":
                r = d.setdefault(key, val)
        except KeyError:
            how = "KeyError"
        run.cover(how)
        if op in ("get", "del", "pop"):
            run.prove("KeyError exactly if no key folds to it", there0 == (how == "done"))
        else:
            run.record("no KeyError", how == "done", how)
        if op in ("get", "pop") and how == "done" or op == "get(default)" and r is not None:
            run.record("a value is returned", isinstance(r, Val), type(r).__name__)
            run.prove("the value last set is returned", z3.And(there0, r.e == value_there))
        elif op == "get(default)":
            run.prove("the default exactly if no key folds to it", z3.Not(there0))
        elif op == "in":
            run.record("membership is a truth value", isinstance(r, bool), type(r).__name__)
            run.prove("in exactly if a key folds to it", there0 == bool(r))
        elif op == "setdefault":
            run.prove("setdefault returns the value there, or the given one", r.e == z3.If(there0, value_there, V0))
        # afterwards, for every key
        there, now = observe(d, s, L0)
        hit = L0 == l0
        if op == "set":
            run.prove("exactly the given key is added", z3.If(hit, True, has0) == there)
            if there:
                run.prove("it holds the given value, others are unchanged", now.e == z3.If(hit, V0, val0))
        elif op == "setdefault":
            run.prove("at most the given key is added", z3.If(hit, True, has0) == there)
            if there:
                run.prove("values there are unchanged", now.e == z3.If(has0, val0, V0))
        elif op in ("del", "pop"):
            run.prove("exactly the given key is removed", z3.And(has0, z3.Not(hit)) == there)
            if there:
                run.prove("others are unchanged", now.e == val0)
        else:
            run.prove("the keys are unchanged", has0 == there)
            if there:
                run.prove("the values are unchanged", now.e == val0)
        n1 = to_int(d.__len__())
        run.prove("the number of entries is right",
                  n1 == (n0 + z3.If(there0, 0, 1) if op in ("set", "setdefault") else n0 - z3.If(there0, 1, 0) if op in ("del", "pop") else n0))
        run.cfg["candidates"] = entries_of(s)
        # what iteration shows, at an arbitrary position of the new content
        pos, n = z3.Int("pos"), s.n
        c.index_term(pos)
        c.assume(z3.And(pos >= 0, pos < n))
        keys = Seq_of(d.__iter__())
        run.prove("iteration has one key per entry", dim_expr(keys.length()) == n)
        k = keys.get(pos)
        at = s.at(pos)
        spell = z3.If(at == l0, K0, s.spell(at)) if op == "set" else z3.If(z3.And(at == l0, z3.Not(there0)), K0, s.spell(at)) if op == "setdefault" else s.spell(at)
        run.record("iteration shows strings", type(k) is Key, type(k).__name__)
        run.prove("iteration shows the spelling last set", k.e == spell)
        lows = Seq_of(d.lower_items())
        run.prove("lower_items has one item per entry", dim_expr(lows.length()) == n)
        lk, lv = lows.get(pos)
        run.record("lower_items shows folded keys", type(lk) is Low, type(lk).__name__)
        run.prove("lower_items shows the folded key", lk.e == at)
        changed = dict(set=at == l0, setdefault=z3.And(at == l0, z3.Not(there0))).get(op, z3.BoolVal(False))
        run.prove("lower_items shows the value last set", lv.e == z3.If(changed, V0, s.val(at)))
    return spec


def Seq_of(x):
    from ..runtime import as_seq
    s = as_seq(x)
    if s is None:
        raise Unsupported("not a sequence over the entries")
    return s


for op in ("set", "get", "del", "in", "get(default)", "pop", "setdefault"):
    add("C18", "mapping: " + op, mapping(op), covers=("done",) + (("KeyError",) if op in ("get", "del", "pop") else ()), loop_limit=0)


# ---------------------------------------------------------------- whole-mapping operations, for at most three keys (bounded)

def model_set(m, k, v):
    """The oracle: a list of [folded, spelling, value] in order of insertion."""
    for e in m:
        if same(e[0], LOWER(k)):
            e[1], e[2] = k, v
            return
    m.append([LOWER(k), k, v])


def agrees(run, what, d, m):
    got = [(k, d[k]) for k in d]
    run.record("%s: as many entries" % what, len(got) == len(m) == len(d), "%d, expected %d" % (len(got), len(m)))
    if len(got) == len(m):
        for (k, v), e in zip(got, m):
            run.prove("%s: spelling last set" % what, k.e == e[1])
            run.prove("%s: value last set" % what, v.e == e[2])


def whole(n):
    def spec():
        c = ctx()
        run = c.run
        ks, vs = [z3.Int("k%d" % i) for i in range(n)], [z3.Int("v%d" % i) for i in range(n)]
        pairs = [(Key(k), Val(v)) for k, v in zip(ks, vs)]
        m = []
        for k, v in zip(ks, vs):
            model_set(m, k, v)
        d = UTIL.CaseInsensitiveDict(pairs)
        agrees(run, "constructor", d, m)
        e = UTIL.CaseInsensitiveDict()
        e.update(pairs)
        agrees(run, "update", e, m)
        run.record("equal content is equal", (d == e) is True, "unequal")
        cp = d.copy()
        run.record("the copy is of the same kind", type(cp) is type(d) and cp is not d, type(cp).__name__)
        agrees(run, "copy", cp, m)
        # the copy is independent
        k, v = z3.Ints("kk vv")
        m2 = [list(x) for x in m]
        cp[Key(k)] = Val(v)
        model_set(m2, k, v)
        agrees(run, "changed copy", cp, m2)
        agrees(run, "original of the changed copy", d, m)
        eq = cp == d
        run.record("equality is a truth value", isinstance(eq, bool), type(eq).__name__)
        there = [x for x in m if same(x[0], LOWER(k))]
        run.prove("equal exactly if the folded content is equal", z3.BoolVal(bool(eq)) == (there[0][2] == v if there else z3.BoolVal(False)))
        run.record("not equal to something that is no mapping", (d == 5) is False and (d != 5) is True, "equal")
        d.clear()
        agrees(run, "clear", d, [])
        run.cover("done")
    return spec


for n in (0, 1, 2, 3):
    add("C18", "mapping: constructor, update, copy, ==, clear with %d keys (bounded)" % n, whole(n), covers=("done",))


# ---------------------------------------------------------------- the registry

ALIASES = {"Euler": "ForwardEuler"}
GROUPS = {"Adams-Bashforth": CONCRETE[:5], "Adams-Moulton": CONCRETE[5:10], "Euler": CONCRETE[10:12], "BDF": CONCRETE[12:18], "Runge-Kutta": CONCRETE[18:]}
NAMES = dict({n: n for n in CONCRETE}, **ALIASES)


class Real(dict):
    """A dictionary with real strings as keys, looked up with an arbitrary one."""

    def __getitem__(self, k):
        if isinstance(k, str):
            return dict.__getitem__(self, k)
        for s, v in self.items():
            if k == s:
                return v
        raise KeyError(k)

    def __contains__(self, k):
        try:
            self[k]
        except KeyError:
            return False
        return True

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default


class lookup:
    """The registries accept arbitrary keys while active."""

    def __enter__(self):
        self.saved = []
        for d in (CORE.Solver.SOLVERS, CORE.Solver.SOLVERS_BY_GROUP):
            a = inner(d)
            self.saved.append((d, a, getattr(d, a)))
            setattr(d, a, Real(getattr(d, a)))

    def __exit__(self, *a):
        for d, a, v in self.saved:
            setattr(d, a, v)


def find(how):
    def spec():
        c = ctx()
        run = c.run
        k = z3.Int("name")
        codes = {n: (code(n), code(n.lower())) for n in NAMES}
        for n, (a, b) in codes.items():
            c.assume(z3.And(LOWER(a) == b, LOWER(b) == b))
        cls, out = None, "found"
        with lookup(), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                cls = CORE.get_solver(Key(k)) if how == "get_solver" else sys.modules["nbkode"].__getattr__(Key(k))
            except ValueError:
                out = "ValueError"
            except AttributeError:
                out = "AttributeError"
        unknown = "ValueError" if how == "get_solver" else "AttributeError"
        run.cover(out)
        is_name = lambda n: LOWER(k) == codes[n][1]
        if cls is None:
            run.record("an unknown name raises %s" % unknown, out == unknown, out)
            run.prove("a name is unknown only if it is none in any letter case", z3.Not(z3.Or([is_name(n) for n in NAMES])))
        else:
            mine = [n for n, t in NAMES.items() if getattr(cls, "__name__", None) == t]
            run.record("a class of the package is returned", cls in classes().values(), repr(cls))
            run.prove("the class has that name or alias, in some letter case", z3.Or([z3.BoolVal(False)] + [is_name(n) for n in mine]))
            if how != "get_solver":
                run.prove("an alias or other spelling is warned about, the name is not", z3.BoolVal(bool(w)) == (k != codes[cls.__name__][0]))
    return spec


def classes():
    out = {}
    for m in ("nbkode.euler", "nbkode.multistep.adams_bashforth", "nbkode.multistep.adams_moulton", "nbkode.multistep.bdf", "nbkode.runge_kutta.explicit"):
        for n, v in vars(sys.modules[m]).items():
            if n in CONCRETE and isinstance(v, type):
                out[n] = v
    return out


FLAGS = ("implicit", "fixed_step", "runge_kutta", "multistep")


def facts(n):
    return dict(implicit=n in IMPLICIT_, fixed_step=n not in ADAPTIVE, runge_kutta=n not in MULTI, multistep=n in MULTI)


IMPLICIT_ = set(CONCRETE[5:10] + ["BackwardEuler"] + CONCRETE[12:18])


def filters():
    run = ctx().run
    cl = classes()
    run.record("every class is there", sorted(cl) == sorted(CONCRETE), str(sorted(set(CONCRETE) - set(cl))))
    names = list(GROUPS)
    run.record("the groups", sorted(CORE.get_groups()) == sorted(names), str(CORE.get_groups()))
    run.record("the names listed", sorted(CORE.list_solvers(include_alias=False)) == sorted(CONCRETE), "others")
    asked = [()] + [(g,) for g in names] + [(f(g),) for g in names for f in (str.upper, str.lower, str.swapcase)] + list(itertools.permutations(names, 2)) + [tuple(names), tuple(reversed(names))]
    for gs in asked:
        members = [n for g in (gs or names) for n in GROUPS[{x.lower(): x for x in names}[g.lower()]]]
        for flags in itertools.product((None, True, False), repeat=4):
            kw = dict(zip(FLAGS, flags))
            got = [c.__name__ for c in CORE.get_solvers(*gs, **kw)]
            want = [n for n in members if all(v is None or facts(n)[k] is v for k, v in kw.items())]
            run.record("get_solvers gives exactly the solvers of the groups with the characteristics, each once", sorted(got) == sorted(want),
                       "get_solvers(%s, %s): %s instead of %s" % (gs, kw, got, want))
    run.cover("done")


def bad_group():
    c = ctx()
    run = c.run
    k = z3.Int("name")
    for n in GROUPS:
        c.assume(LOWER(code(n)) == code(n.lower()))
    how, out = "found", None
    with lookup():
        try:
            out = CORE.get_solvers(Key(k))
        except KeyError:
            how = "KeyError"
    run.cover(how)
    hit = [LOWER(k) == code(g.lower()) for g in GROUPS]
    if out is None:
        run.prove("a group is unknown only if it is none in any letter case", z3.Not(z3.Or(hit)))
    else:
        mine = [g for g in GROUPS if sorted(GROUPS[g]) == sorted(c.__name__ for c in out)]
        run.record("the members of one group are given", len(mine) == 1, str(out))
        if mine:
            run.prove("of the group of that name", LOWER(k) == code(mine[0].lower()))


def characteristics(name):
    """IMPLICIT and FIXED_STEP against what one step does, from every state."""
    def spec():
        c = ctx()
        run = c.run
        cls = getattr(nb, name)
        run.record("IMPLICIT is a truth value", cls.IMPLICIT in (True, False), repr(cls.IMPLICIT))
        run.record("FIXED_STEP is a truth value", cls.FIXED_STEP in (True, False), repr(cls.FIXED_STEP))
        S = setup(name)
        fd = Finder(S.d, S.T, S.h, fails=True)
        out, how = public_step(S, fd)
        if how != "done":
            return
        run.cover("a step is taken")
        run.record("reported implicit exactly if its step solves an equation", bool(cls.IMPLICIT) == bool(fd.calls), "IMPLICIT=%s, %d equations solved" % (cls.IMPLICIT, len(fd.calls)))
        tn = vec(S.cache.ts)(S.L - 1)
        if cls.FIXED_STEP:
            run.prove("a fixed-step method keeps its step size", to_real(S.solver.h) == S.h_old)
            run.prove("and always advances by it", tn == S.T + S.h)
        else:
            for which, e in (("step size changes", to_real(S.solver.h) != S.h_old), ("step size is kept", to_real(S.solver.h) == S.h_old)):
                if c.feasible(e):
                    run.covers[which] = "sat"
        run.record("a variable-step method is one with an error estimate", bool(cls.FIXED_STEP) == (name not in ADAPTIVE), str(cls.FIXED_STEP))
    return spec


for how in ("get_solver", "getattr(nbkode, name)"):
    add("C18", how + " for every string", find(how), covers=("found", "ValueError" if how == "get_solver" else "AttributeError"), loop_limit=1000)
add("C18", "get_solvers for every combination of filters (exhaustive)", filters, covers=("done",), loop_limit=100000)
add("C18", "get_solvers for every group name", bad_group, covers=("found", "KeyError"), loop_limit=1000)
for n in CONCRETE:
    kw = dict(loop_limit=1) if n in ADAPTIVE else {}
    add("C18", "characteristics of " + n, characteristics(n), covers=("a step is taken",) + (("step size changes",) if n in ADAPTIVE else ()), **kw)
