"""Names injected into the instrumented modules (see instrument.py)."""
import builtins
import operator
import sys
import types

import numpy as _np

from .engine import z3, ctx, Unsupported, Loop, lift_bool
from .sym import Arr, SList, SR, SI, SB, _Num, compare, dim_expr, is_num, simp_int, to_int, to_real, wrap_int, absval, ite_val, any_sym
from . import npshim

np = npshim.NP
math = npshim.MATH


def mklist(x):
    return SList(x) if ctx() is not None else x


def geniter(x):
    if isinstance(x, SList):
        return x if x.symbolic or any_sym(x.items) else builtins.iter(x.items)
    return builtins.iter(x)


def is_(a, b):
    if isinstance(a, SB) and isinstance(b, bool):
        return bool(a) is b
    if isinstance(b, SB) and isinstance(a, bool):
        return bool(b) is a
    return a is b


def setattr(obj, name, value):  # noqa: A001
    c = ctx()
    if c is not None and not isinstance(obj, type):
        s = c.serial_of(obj)
        c.note_write(("attr", s, name), obj)
    builtins.setattr(obj, name, value)


_OPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
        "Pow": operator.ipow, "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "BitAnd": operator.iand,
        "BitOr": operator.ior, "BitXor": operator.ixor, "MatMult": operator.imatmul}


def augattr(obj, name, op, value):
    setattr(obj, name, _OPS[op](getattr(obj, name), value))


def fmt(text, args):
    """text % args; symbolic numbers are shown as nan / 0 (messages are not part of any property)."""
    def plain(a):
        return float("nan") if isinstance(a, SR) else 0 if isinstance(a, SI) else a
    return text % (tuple(plain(a) for a in args) if isinstance(args, tuple) else plain(args))


def whileloop(site, names, endless=False):
    return Loop(site, names, endless=endless) if ctx() is not None else NullLoop()


def forloop(site, names, it):
    return Loop(site, names, it)


class NullLoop:
    def head(self, locs):
        return None

    def body(self):
        pass

    def exit(self):
        pass


class Seq:
    """Random access sequence with possibly symbolic length."""

    concrete = False

    def __init__(self, n, get):
        self.n, self.get = n, get

    def length(self):
        return self.n() if callable(self.n) else self.n

    def item(self, i):
        ctx().index_term(z3.IntVal(i) if isinstance(i, int) else i)
        return self.get(i)


class Conc:
    concrete = True

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class LazyList:
    """Iterates a concrete-length SList with Python's semantics under mutation."""

    def __init__(self, l):
        self.l = l

    def __iter__(self):
        i = 0
        while True:
            if self.l.symbolic:
                raise Unsupported("list became symbolic while iterated")
            if i >= len(self.l.items):
                return
            yield self.l.items[i]
            i += 1


def as_seq(x):
    """-> Seq (symbolic length) or None"""
    if isinstance(x, Seq):
        return x
    if isinstance(x, Arr):
        if not x.shape_:
            raise TypeError("iteration over a 0-d array")
        n = x.shape_[0]
        if not isinstance(n, int):
            return Seq(n, lambda i, x=x: row(x, i))
        return None
    if isinstance(x, SList) and x.symbolic:
        return Seq(lambda: x.length(), lambda i, x=x: x.get(i))
    if hasattr(x, "__nbv_seq__"):
        return x.__nbv_seq__()
    return None


def row(x, i):
    from .sym import scalar
    v = Arr(x.st, x.shape_, x.maps)
    maps = []
    for m in x.maps:
        if m[0] == "fix":
            maps.append(m)
        elif m[1] == 0:
            maps.append(("fix", simp_int(dim_expr(m[2]) + m[3] * dim_expr(i))))
        else:
            maps.append(("ax", m[1] - 1, m[2], m[3]))
    v = Arr(x.st, x.shape_[1:], maps)
    if v.shape_ == ():
        if len(v.maps) == 1 and not isinstance(v.maps[0][1], int):
            ctx().index_term(v.maps[0][1])      # position in the storage
        return scalar(v.at(()), v.st.dtype)
    return v


def iterate(x):
    if ctx() is None:
        return Conc(x)
    if isinstance(x, (Seq, Conc)):
        return x
    s = as_seq(x)
    if s is not None:
        return s
    if isinstance(x, SList):
        return Conc(LazyList(x))
    if isinstance(x, Arr):
        n = x.shape_[0]
        return Conc([row(x, i) for i in builtins.range(n)])
    return Conc(x)


# ---- builtins

def b_len(x):
    if isinstance(x, SList):
        return wrap_int(x.length()) if x.symbolic else len(x.items)
    if isinstance(x, Arr):
        return wrap_int(x.length())
    if isinstance(x, Seq):
        return wrap_int(x.length())
    if hasattr(x, "__nbv_seq__"):
        return wrap_int(x.__nbv_seq__().length())
    return builtins.len(x)


def b_range(*a):
    a = [simp_int(to_int(x)) if isinstance(x, (SI, Arr)) else x for x in a]
    if builtins.all(isinstance(x, (int, _np.integer)) for x in a):
        return builtins.range(*[int(x) for x in a])
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if step != 1:
        raise Unsupported("symbolic range with a step")
    d = z3.simplify(dim_expr(hi) - dim_expr(lo))
    if not ctx().entails(d >= 0):
        d = z3.If(d >= 0, d, z3.IntVal(0))
    return Seq(simp_int(d), lambda i: wrap_int(dim_expr(lo) + dim_expr(i)))


def b_enumerate(x, start=0):
    s = as_seq(x)
    if s is None:
        return builtins.enumerate(iterate(x) if ctx() is not None else x, start)
    return Seq(s.n, lambda i: (wrap_int(dim_expr(i) + to_int(start)), s.get(i)))


def b_zip(*xs, **k):
    ss = [as_seq(x) for x in xs]
    if builtins.all(s is None for s in ss):
        return builtins.zip(*[iterate(x) if ctx() is not None else x for x in xs], **k)
    if builtins.any(s is None for s in ss):
        raise Unsupported("zip of symbolic and concrete sequences")

    def n():
        r = ss[0].length()
        for s in ss[1:]:
            m = s.length()
            if dim_expr(m).eq(dim_expr(r)) or ctx().entails(dim_expr(m) == dim_expr(r)):
                continue
            r = r if ctx().decide(dim_expr(r) <= dim_expr(m)) else m
        return r
    ln = n()
    return Seq(ln, lambda i: builtins.tuple(s.get(i) for s in ss))


def b_reversed(x):
    s = as_seq(x)
    if s is None:
        return builtins.reversed(builtins.list(iterate(x))) if isinstance(x, (SList, Arr)) else builtins.reversed(x)
    n = s.length()
    return Seq(n, lambda i: s.get(simp_int(dim_expr(n) - 1 - dim_expr(i))))


def issym(x):
    return isinstance(x, (SR, SI, SB, Arr))


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return cls.check(o)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls.real)


class b_float(metaclass=_TypeMeta):
    real = builtins.float

    def __new__(cls, x=0.0):
        if isinstance(x, SR):
            return x
        if issym(x):
            return SR(to_real(x))
        return builtins.float(x)

    @staticmethod
    def check(o):
        return isinstance(o, (builtins.float, SR))


class b_int(metaclass=_TypeMeta):
    real = builtins.int

    def __new__(cls, x=0):
        if isinstance(x, SI):
            return x
        if isinstance(x, SB):
            return SI(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
        if issym(x):
            e = to_real(x)
            return SI(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
        return builtins.int(x)

    @staticmethod
    def check(o):
        return isinstance(o, (builtins.int, SI))


class b_bool(metaclass=_TypeMeta):
    real = builtins.bool

    def __new__(cls, x=False):
        if isinstance(x, SB):
            return x
        if isinstance(x, (SR, SI)):
            r = x != 0
            return r
        return builtins.bool(x)

    @staticmethod
    def check(o):
        return isinstance(o, (builtins.bool, SB))


class b_list(metaclass=_TypeMeta):
    real = builtins.list

    def __new__(cls, x=()):
        if ctx() is None:
            return builtins.list(x)
        if isinstance(x, SList):
            return x.snapshot()
        s = as_seq(x)
        if s is not None:
            r = SList()
            r.symbolic, r.base_len, r.base_get = True, dim_expr(s.length()), s.get
            return r
        return SList(iterate(x))

    @staticmethod
    def check(o):
        return isinstance(o, (builtins.list, SList))


class b_tuple(metaclass=_TypeMeta):
    real = builtins.tuple

    def __new__(cls, x=()):
        if isinstance(x, SList) and x.symbolic or isinstance(x, Seq):
            raise Unsupported("tuple of a symbolic sequence")
        return builtins.tuple(iterate(x) if ctx() is not None else x)

    @staticmethod
    def check(o):
        return isinstance(o, builtins.tuple)


_REAL = {b_float: builtins.float, b_int: builtins.int, b_bool: builtins.bool, b_list: builtins.list, b_tuple: builtins.tuple}


def b_isinstance(o, t):
    ts = t if isinstance(t, builtins.tuple) else (t,)
    for x in ts:
        if isinstance(x, _TypeMeta):
            if x.check(o):
                return True
            continue
        if x is _np.ndarray and isinstance(o, Arr):
            return True
        try:
            if isinstance(o, SR) and (issubclass(builtins.float, x) or issubclass(_np.float64, x)):
                return True
            if isinstance(o, SI) and issubclass(builtins.int, x):
                return True
        except TypeError:
            pass
        if isinstance(o, x):
            return True
    return False


def _pick(a, b, op):
    """min/max of two as an if-then-else (Python's tie rule: the first argument wins)."""
    if not issym(a) and not issym(b):
        return (b if b < a else a) if op == "min" else (b if b > a else a)
    c = (b < a) if op == "min" else (b > a)
    if isinstance(c, Arr):
        c = bool(c)
    if isinstance(c, SB):
        if not (isinstance(a, (SR, SI)) or is_num(a) or isinstance(a, Arr)) or \
           (is_num(a) and not _np.isfinite(a)) or (is_num(b) and not _np.isfinite(b)):
            return b if bool(c) else a
        # a decision keeps the solver's queries free of if-then-else
        return b if bool(c) else a
    return b if c else a


def _extreme(op, *a, **k):
    if k:
        return getattr(builtins, op)(*a, **k)
    if len(a) == 1:
        x = a[0]
        s = as_seq(x)
        if s is not None:
            return npshim._extreme(x, op)
        a = builtins.list(iterate(x) if ctx() is not None else x)
        if not a:
            raise ValueError("%s() arg is an empty sequence" % op)
    r = a[0]
    for v in a[1:]:
        r = _pick(r, v, op)
    return r


def b_min(*a, **k):
    return _extreme("min", *a, **k)


def b_max(*a, **k):
    return _extreme("max", *a, **k)


def b_abs(x):
    return absval(x) if issym(x) else builtins.abs(x)


def b_sum(x, start=0):
    s = as_seq(x)
    if s is not None:
        raise Unsupported("sum of a symbolic sequence")
    r = start
    for v in (iterate(x) if ctx() is not None else x):
        r = r + v
    return r


def b_any(x):
    s = as_seq(x)
    if s is not None:
        return npshim.quantified(lambda i: lift_bool(s.get(i)), s.length(), True)
    for v in (iterate(x) if ctx() is not None else x):
        if v:
            return True
    return False


def b_all(x):
    s = as_seq(x)
    if s is not None:
        return npshim.quantified(lambda i: lift_bool(s.get(i)), s.length(), False)
    for v in (iterate(x) if ctx() is not None else x):
        if not v:
            return False
    return True


def b_sorted(x, **k):
    if as_seq(x) is not None or isinstance(x, SList) and any_sym(x.items):
        raise Unsupported("sorted of symbolic values")
    r = builtins.sorted(iterate(x) if ctx() is not None else x, **k)
    return mklist(r)


def b_round(x, *a):
    if issym(x):
        raise Unsupported("round")
    return builtins.round(x, *a)


def b_pow(a, b, *m):
    return a ** b if not m else builtins.pow(a, b, *m)


def b_divmod(a, b):
    if issym(a) or issym(b):
        raise Unsupported("divmod")
    return builtins.divmod(a, b)


def b_map(f, *xs):
    if builtins.any(as_seq(x) is not None for x in xs):
        raise Unsupported("map over a symbolic sequence")
    return builtins.map(f, *[iterate(x) if ctx() is not None else x for x in xs])


def b_filter(f, x):
    if as_seq(x) is not None:
        raise Unsupported("filter over a symbolic sequence")
    return builtins.filter(f, iterate(x) if ctx() is not None else x)


def b_iter(x, *a):
    if as_seq(x) is not None:
        raise Unsupported("iter() of a symbolic sequence")
    return builtins.iter(iterate(x) if isinstance(x, (SList, Arr)) else x, *a)


def b_next(*a):
    return builtins.next(*a)
