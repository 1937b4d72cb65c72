"""State, frames and invariant candidates of cut loops (see engine.Loop)."""
import enum
import itertools

import numpy as np

from .engine import z3, ctx, Unsupported, Cell, toint, lift_bool
from .sym import (Arr, SList, SR, SI, SB, Storage, dim_expr, fresh_content, is_num, real_of, simp_int, to_int, to_real, wrap_int)


class Frame:
    def __init__(self, c):
        self.entry_serial = c.new_serial(self)
        self.writes = {}


class State:
    """Values of the tracked items at one point."""

    def __init__(self, loop, locs, c):
        self.loop, self.locs, self.c = loop, locs, c

    def val(self, key):
        if key == "iter":
            return SI(toint(self.c))
        if key[0] == "local":
            return self.locs[key[1]]
        if key[0] == "snap":
            return self.vals[key]
        return heap_value(key)


def heap_value(key):
    o = ctx().objs[key[1]]
    if key[0] == "cell":
        v = o.get()
        return SI(v) if v.is_int() else SB(v) if z3.is_bool(v) else SR(v)
    if key[0] == "attr":
        return getattr(o, key[2])
    if key[0] == "stor":
        return Arr(o)
    return o


class EntryState:
    def __init__(self, vals):
        self.vals = vals

    def val(self, key):
        return self.vals[key]


SCALARS = (bool, int, float, np.floating, np.integer, np.bool_, SI, SR, SB)


def items(loop, locs):
    out = {}
    for n in loop.names:
        if n in locs:
            out[("local", n)] = locs[n]
    for key in loop.info.writes:
        if key[1] in ctx().objs:
            out[key] = heap_value(key)
    return out


def snapshot(v):
    if isinstance(v, Arr):
        return Arr.new(v.shape_, v.snap(), v.st.dtype, "entry")
    if isinstance(v, SList):
        return v.snapshot()
    return v


def fresh_like(v, name):
    """Arbitrary value of the same kind; NotImplemented for references."""
    c = ctx()
    if isinstance(v, enum.Enum):
        return NotImplemented
    if isinstance(v, (bool, np.bool_, SB)):
        return SB(c.bool(name))
    if isinstance(v, (int, np.integer, SI)):
        return SI(c.int(name))
    if isinstance(v, (float, np.floating)) and not np.isfinite(v):
        raise Unsupported("%r changes in a loop" % v)     # an arbitrary real would leave it out
    if isinstance(v, (float, np.floating, SR)):
        return SR(c.real(name))
    if isinstance(v, Arr):
        return Arr.fresh(v.shape_, name, v.st.dtype)
    if isinstance(v, np.ndarray) and v.dtype.kind == "f":
        return Arr.fresh(v.shape, name, "f")
    if getattr(type(v), "nbv_opaque", False):
        return type(v)(c.int(name))
    if isinstance(v, tuple):
        parts = [fresh_like(x, name) for x in v]
        if any(p is NotImplemented for p in parts):
            return NotImplemented
        return tuple(parts)
    return NotImplemented


def template(v):
    if isinstance(v, (bool, SB)):
        return "b"
    if isinstance(v, (int, SI, np.integer)):
        return "i"
    if isinstance(v, (float, SR, np.floating)):
        return "f"
    if isinstance(v, Arr):
        return ("vec", v.shape_)
    if isinstance(v, tuple):
        return ("tuple", tuple(template(x) for x in v))
    if getattr(type(v), "nbv_opaque", False):      # a specification's own value, known by the term .e
        return ("opaque", type(v))
    raise Unsupported("list element of type %r in a loop" % type(v))


def element(tmpl, name):
    """idx -> value getter of a havocked list."""
    c = ctx()
    if tmpl in ("b", "i", "f"):
        f = fresh_content(1, tmpl, name)
        w = {"b": SB, "i": SI, "f": SR}[tmpl]
        return lambda i: w(f((dim_expr(i),)))
    if tmpl[0] == "vec":
        f = fresh_content(1 + len(tmpl[1]), "f", name)
        return lambda i: Arr.new(tmpl[1], lambda idx: f((dim_expr(i),) + tuple(idx)), "f", name)
    if tmpl[0] == "opaque":
        f = fresh_content(1, "i", name)
        return lambda i: tmpl[1](f((dim_expr(i),)))
    gs = [element(t, name) for t in tmpl[1]]
    return lambda i: tuple(g(i) for g in gs)


def havoc(loop, locs):
    c, info = ctx(), loop.info
    env = {}
    for n in loop.names:
        if n not in locs:
            continue
        kind = info.elem.get(("kind", n))
        if kind == "real":
            env[n] = SR(c.real(n))
            continue
        v = fresh_like(locs[n], n)
        if v is not NotImplemented:
            env[n] = v
    for key in list(info.writes):
        o = c.objs.get(key[1])
        if o is None:
            continue
        if key[0] == "cell":
            v = o.get()
            nm = c.fresh(o.name)
            o.set(z3.Int(nm) if v.is_int() else z3.Bool(nm) if z3.is_bool(v) else z3.Real(nm))
        elif key[0] == "stor":
            c.note_write(("stor", o.serial), o)
            o.havoc()
        elif key[0] == "list":
            c.note_write(("list", o.serial), o)
            t = info.elem.get(key)
            if t is None:
                if not o.symbolic and not o.items:
                    continue
                t = template(o.items[0] if o.items else o.base_get(c.int("p")))
            o.symbolic = True
            o.base_len = c.int("len")
            c.assume(o.base_len >= 0)
            o.base_get = element(t, "L")
            o.items = []
        elif key[0] == "attr":
            v = fresh_like(getattr(o, key[2]), key[2])
            if v is NotImplemented:
                raise Unsupported("attribute %s of unsupported kind changes in a loop" % key[2])
            c.note_write(key, o)
            setattr(o, key[2], v)
    return env


def check_frame(loop, locs):
    """True if new writes were found (restart)."""
    info, new = loop.info, False
    for key, o in loop.frame.writes.items():
        if key not in info.writes:
            info.writes[key] = True
            new = True
        if key[0] == "list" and info.elem.get(key) is None:
            vals = o.items
            if vals:
                info.elem[key] = template(vals[-1])
                new = True
    for n in loop.names:
        if n not in locs or ("local", n) not in loop.entry_vals:
            continue
        v0, v = loop.items[("local", n)], locs[n]
        k0, k = kind(v0), kind(v)
        if k0 == "ref":
            if v is not v0 and not (isinstance(v0, enum.Enum) and v0 == v):
                raise Unsupported("local %r of kind %s is rebound in a loop" % (n, type(v0).__name__))
        elif k0 != k:
            if {k0, k} == {"int", "real"}:
                if info.elem.get(("kind", n)) != "real":
                    info.elem[("kind", n)] = "real"
                    new = True
            else:
                raise Unsupported("local %r changes kind in a loop (%s -> %s)" % (n, k0, k))
        elif k0 == "arr":
            if len(v.shape_) != len(v0.shape_) or not all(ctx().entails(dim_expr(a) == dim_expr(b)) for a, b in zip(v.shape_, v0.shape_)):
                raise Unsupported("local array %r changes shape in a loop" % n)
            if v.st.serial < loop.frame.entry_serial and v.st is not v0.st:
                # aliases memory that outlives the iteration
                if not getattr(v.st, "immutable", False):
                    raise Unsupported("local array %r is rebound to shared memory in a loop" % n)
    return new


def kind(v):
    if isinstance(v, enum.Enum):
        return "ref"
    if isinstance(v, (bool, np.bool_, SB)):
        return "bool"
    if isinstance(v, (int, np.integer, SI)):
        return "int"
    if isinstance(v, (float, np.floating, SR)):
        return "real"
    if isinstance(v, (Arr,)):
        return "arr"
    if isinstance(v, np.ndarray):
        return "arr"
    if isinstance(v, tuple):
        return "tuple%d" % len(v)
    if getattr(type(v), "nbv_opaque", False):
        return "opaque " + type(v).__name__
    return "ref"


# ------------------------------------------------------------------ candidates

def flatten(key, v, out, get):
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            flatten(key + ("[%d]" % i,), x, out, lambda st, get=get, i=i: get(st)[i])
    else:
        out.append((key, v, get))


def views(loop):
    """(name, entry value, getter(State)) of every tracked item, tuples flattened."""
    out = []
    for key, v in loop.entry_vals.items():
        flatten(key, v, out, lambda st, key=key: st.val(key))
    return out


def nm(key):
    if key[0] == "local":
        return "".join(str(x) for x in key[1:])
    if key[0] == "cell":
        return "ghost " + ctx().objs[key[1]].name + "".join(map(str, key[2:]))
    if key[0] == "attr":
        return "%s.%s" % (type(ctx().objs[key[1]]).__name__, "".join(map(str, key[2:])))
    return "%s#%s" % key[:2]


def candidates(loop):
    """name -> predicate(State).  Generic templates over the tracked values, plus the domain's."""
    run, c = loop.run, ctx()
    out = {}
    V = views(loop)
    ints, reals, bools, arrs, lists = [], [], [], [], []
    for key, v, get in V:
        k = kind(v)
        if loop.info.elem.get(("kind", key[1])) == "real" and key[0] == "local":
            k = "real"
        n = nm(key)
        if isinstance(v, SList):
            lists.append((n, v, get))
        elif k == "int":
            ints.append((n, to_int(v), lambda st, g=get: to_int(g(st))))
        elif k == "real":
            try:
                e0 = to_real(v)
                if isinstance(v, (float, np.floating)) and v != v:
                    e0 = None
            except Unsupported:
                e0 = None
            reals.append((n, e0, lambda st, g=get: to_real(g(st))))
        elif k == "bool":
            bools.append((n, lift_bool(v), lambda st, g=get: lift_bool(g(st))))
        elif k == "arr":
            a = v if isinstance(v, Arr) else Arr.of(v)
            if a.ndim == 0 and a.st.dtype == "f":
                e0 = a.at(())
                reals.append((n, e0, lambda st, g=get: to_real(g(st))))
            arrs.append((n, a, lambda st, g=get: Arr.of(g(st))))
    for n, l, g in lists:
        ints.append(("len(%s)" % n, toint(l.length()), lambda st, g=g: toint(g(st).length())))
    ints.append(("iterations", z3.IntVal(0), lambda st: toint(st.c)))
    for i, (n, v0, g) in enumerate(ints):
        if n != "iterations":
            out["%s >= entry" % n] = lambda st, g=g, v0=v0: g(st) >= v0
            out["%s == entry" % n] = lambda st, g=g, v0=v0: g(st) == v0
        for n2, w0, g2 in ints[i + 1:]:
            out["%s and %s advance together" % (n, n2)] = lambda st, g=g, g2=g2, v0=v0, w0=w0: g(st) - v0 == g2(st) - w0
            out["%s and %s advance opposite ways" % (n, n2)] = lambda st, g=g, g2=g2, v0=v0, w0=w0: g(st) - v0 == w0 - g2(st)
        for bn, b in run.cfg.get("int_bounds", lambda: [])():
            out["%s <= %s" % (n, bn)] = lambda st, g=g, b=b: g(st) <= b
    if loop.it is not None:
        L = loop.it
        out["iterations <= length"] = lambda st: toint(st.c) <= toint(L.length())
    for i, (n, v0, g) in enumerate(reals):
        out["%s > 0" % n] = lambda st, g=g: g(st) > 0
        out["%s >= 0" % n] = lambda st, g=g: g(st) >= 0
        if v0 is not None:
            out["%s == entry" % n] = lambda st, g=g, v0=v0: g(st) == v0
            out["%s <= entry" % n] = lambda st, g=g, v0=v0: g(st) <= v0
            out["%s >= entry" % n] = lambda st, g=g, v0=v0: g(st) >= v0
        for n2, w0, g2 in reals[i + 1:]:
            out["%s == %s" % (n, n2)] = lambda st, g=g, g2=g2: g(st) == g2(st)
            out["%s <= %s" % (n, n2)] = lambda st, g=g, g2=g2: g(st) <= g2(st)
            out["%s >= %s" % (n, n2)] = lambda st, g=g, g2=g2: g(st) >= g2(st)
            out["%s != %s" % (n, n2)] = lambda st, g=g, g2=g2: g(st) != g2(st)
        for bn, b in run.cfg.get("real_bounds", lambda: [])():
            out["%s <= %s" % (n, bn)] = lambda st, g=g, b=b: g(st) <= b
    for n, v0, g in bools:
        out["%s == entry" % n] = lambda st, g=g, v0=v0: g(st) == v0
        out["%s" % n] = lambda st, g=g: g(st)
        out["not %s" % n] = lambda st, g=g: z3.Not(g(st))
    J, I = z3.Int("J"), z3.Int("I")
    for n, a, g in arrs:
        if a.ndim == 0:
            continue
        idx = (J, I)[: a.ndim] if a.ndim > 1 else (J,)
        out["%s unchanged" % n] = lambda st, g=g, a=a, idx=idx: g(st).at(idx) == a.at(idx)
        if a.ndim == 1:
            out["%s unchanged (I)" % n] = lambda st, g=g, a=a: g(st).at((I,)) == a.at((I,))
    dom = run.cfg.get("candidates")
    if dom is not None:
        out.update(dom(loop, ints, reals, bools, arrs, lists))
    return out
