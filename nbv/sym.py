"""Symbolic values: reals, integers, booleans, arrays (with numpy's view semantics), lists."""
import builtins
import math
from fractions import Fraction

import numpy as np

from .engine import z3, ctx, Unsupported, PathEnd, lift_bool, Cell  # noqa: F401

INF = float("inf")


def is_num(x):
    return isinstance(x, (int, float, np.floating, np.integer, Fraction)) and not isinstance(x, bool)


def q(x):
    """Exact z3 real of a Python/numpy number."""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    f = Fraction(float(x))
    return z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)


def finite(x):
    return not isinstance(x, (float, np.floating)) or math.isfinite(x)


def to_real(x):
    """z3 Real expression of a scalar (int, float, SR, SI, 0-d Arr)."""
    if isinstance(x, SR):
        return x.e
    if isinstance(x, SI):
        return z3.ToReal(x.e)
    if isinstance(x, SB):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, Arr):
        if x.shape == () or all(isinstance(n, int) and n == 1 for n in x.shape):
            return real_of(x.at((0,) * len(x.shape)), x.dtype)
        raise Unsupported("array used as scalar")
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(())[()]
    if is_num(x) or isinstance(x, (bool, np.bool_)):
        if not finite(x):
            if x != x:
                return ctx().real("nan")
            raise Unsupported("infinity in arithmetic")
        return q(x)
    if z3.is_expr(x):
        return z3.ToReal(x) if x.is_int() else x
    raise Unsupported("not a real: %r" % (type(x),))


def real_of(e, dtype="f"):
    if dtype == "b":
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    if z3.is_expr(e) and e.is_int():
        return z3.ToReal(e)
    return e


def to_int(x):
    if isinstance(x, SI):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if z3.is_expr(x) and x.is_int():
        return x
    if isinstance(x, Arr) and x.shape == () and x.dtype == "i":
        return x.at(())
    raise Unsupported("not an int: %r" % (x,))


def simp_int(e):
    """int if the z3 Int expression is a numeral."""
    if isinstance(e, (int, np.integer)):
        return int(e)
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else e


def dim_expr(n):
    return z3.IntVal(n) if isinstance(n, int) else n


def wrap_int(e):
    e = simp_int(e)
    return e if isinstance(e, int) else SI(e)


def scalar(e, dtype):
    if dtype == "b":
        return SB(e)
    if dtype == "i":
        return wrap_int(e)
    return SR(e)


class SB:
    __array_ufunc__ = None
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def _b(self, o):
        if isinstance(o, Arr):
            return None
        return lift_bool(o)

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SB(z3.And(self.e, b))

    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SB(z3.Or(self.e, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SB(z3.Xor(self.e, b))

    __rxor__ = __xor__

    def __invert__(self):
        return SB(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SB)):
            return SB(self.e == lift_bool(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_, SB)):
            return SB(self.e != lift_bool(o))
        return NotImplemented

    def __mul__(self, o):
        return SR(to_real(self)) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return SI(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) + o

    __radd__ = __add__

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "SB(%s)" % self.e


def _cmp_inf(op, a_inf, b_inf):
    """Comparison where at least one side is a concrete non-finite float; the other, if symbolic, is finite."""
    a = a_inf if a_inf is not None else 0.0
    b = b_inf if b_inf is not None else 0.0
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]


def compare(op, a, b):
    if (is_num(a) and not finite(a)) or (is_num(b) and not finite(b)):
        return _cmp_inf(op, float(a) if is_num(a) else None, float(b) if is_num(b) else None)
    if isinstance(a, (SI, int, np.integer)) and isinstance(b, (SI, int, np.integer)):
        x, y = to_int(a), to_int(b)
    else:
        x, y = to_real(a), to_real(b)
    e = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SB(e)


class _Num:
    __array_ufunc__ = None

    def __lt__(self, o):
        return self._c("lt", o)

    def __le__(self, o):
        return self._c("le", o)

    def __gt__(self, o):
        return self._c("gt", o)

    def __ge__(self, o):
        return self._c("ge", o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple)):
            return False
        return self._c("eq", o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple)):
            return True
        return self._c("ne", o)

    def _c(self, op, o):
        if isinstance(o, Arr):
            return NotImplemented
        if isinstance(o, np.ndarray):
            if o.shape == ():
                o = o[()]
            else:
                return Arr.of(o)._elem_cmp(FLIP[op], self)
        return compare(op, self, o)

    def __hash__(self):
        return id(self)

    def __add__(self, o):
        return arith("+", self, o)

    def __radd__(self, o):
        return arith("+", o, self)

    def __sub__(self, o):
        return arith("-", self, o)

    def __rsub__(self, o):
        return arith("-", o, self)

    def __mul__(self, o):
        return arith("*", self, o)

    def __rmul__(self, o):
        return arith("*", o, self)

    def __truediv__(self, o):
        return arith("/", self, o)

    def __rtruediv__(self, o):
        return arith("/", o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return arith("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absval(self)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic value in uninstrumented code")

    def item(self):
        return self

    def copy(self):
        return self

    ndim = 0
    shape = ()
    size = 1


FLIP = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}


class SR(_Num):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SR(%s)" % str(self.e)[:80]

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    @property
    def real(self):
        return self

    def __int__(self):
        raise Unsupported("int() of symbolic real")

    def astype(self, *_):
        return self


class SI(_Num):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SI(%s)" % str(self.e)[:80]

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported("symbolic integer needed concretely")

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return SI(self.e / o)
        raise Unsupported("floordiv")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SI(self.e % o)
        raise Unsupported("mod")


def arith(op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        return Arr.of(a)._elem(op, b) if not isinstance(a, Arr) else a._elem(op, b)
    if isinstance(a, (np.ndarray, list, tuple, SList)) or isinstance(b, (np.ndarray, list, tuple, SList)):
        if isinstance(a, np.ndarray) and a.shape == ():
            return arith(op, a[()], b)
        if isinstance(b, np.ndarray) and b.shape == ():
            return arith(op, a, b[()])
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return Arr.of(a)._elem(op, Arr.of(b))
        return NotImplemented
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return NotImplemented
    if (is_num(a) and not finite(a)) or (is_num(b) and not finite(b)):
        return arith_inf(op, a, b)
    ints = isinstance(a, (SI, int, np.integer)) and isinstance(b, (SI, int, np.integer))
    if ints and op != "/":
        x, y = to_int(a), to_int(b)
        return wrap_int(x + y if op == "+" else x - y if op == "-" else x * y)
    x, y = to_real(a), to_real(b)
    if op == "+":
        return SR(x + y)
    if op == "-":
        return SR(x - y)
    if op == "*":
        return SR(x * y)
    return SR(divide(x, y))


def arith_inf(op, a, b):
    a_bad, b_bad = is_num(a) and not finite(a), is_num(b) and not finite(b)
    if (a_bad and a != a) or (b_bad and b != b):
        return float("nan")
    if op == "+" and a_bad != b_bad:
        return float(a) if a_bad else float(b)
    if op == "-" and a_bad != b_bad:
        return float(a) if a_bad else -float(b)
    if op == "*" and a_bad != b_bad:
        inf, o = (a, b) if a_bad else (b, a)
        if bool(compare("gt", o, 0)):
            return float(inf)
        if bool(compare("lt", o, 0)):
            return -float(inf)
        return float("nan")
    if op == "/" and b_bad and not a_bad:
        return 0.0
    if op == "/" and a_bad and not b_bad:
        if bool(compare("gt", b, 0)):
            return float(a)
        if bool(compare("lt", b, 0)):
            return -float(a)
        return float("nan")
    raise Unsupported("infinity arithmetic")


def divide(x, y):
    """x / y; a zero denominator gives an unspecified value (numpy: inf or nan), on a path of its own."""
    y = z3.simplify(y)
    if z3.is_rational_value(y):
        if y.numerator_as_long() != 0:
            return x / y
        ctx().run.notes.add("division by a constant zero")
        return ctx().real("div0")
    if ctx().decide(y != 0):
        return x / y
    ctx().events.append(("div0", x, y))
    return ctx().real("div0")


def power(a, b):
    if isinstance(a, Arr) or isinstance(b, (Arr, np.ndarray)):
        return Arr.of(a)._pow(b)
    if isinstance(b, (int, np.integer)) or (isinstance(b, float) and b == int(b) and abs(b) < 20):
        n = int(b)
        if isinstance(a, SI) and isinstance(b, int) and n >= 0:
            r = z3.IntVal(1)
            for _ in range(n):
                r = r * a.e
            return SI(r)
        x = to_real(a)
        if n == 0:
            return 1.0
        r = x
        for _ in range(abs(n) - 1):
            r = r * x
        return SR(r) if n > 0 else SR(divide(z3.RealVal(1), r))
    if isinstance(b, (float, np.floating, Fraction)) and Fraction(b) == Fraction(1, 2):
        return SR(sqrt_expr(to_real(a)))
    return SR(pow_expr(to_real(a), to_real(b)))


def sqrt_expr(x):
    """sqrt as an uninterpreted function with the axioms that are needed (x >= 0 assumed, numpy gives nan below)."""
    c = ctx()
    x = z3.simplify(x)
    if z3.is_rational_value(x):
        f = Fraction(x.numerator_as_long(), x.denominator_as_long())
        for r in (Fraction(math.isqrt(f.numerator) if f >= 0 else 0, math.isqrt(f.denominator)),):
            if f >= 0 and r * r == f:
                return q(r)
    for kind, args, r in c.registry:
        if kind == "sqrt" and c.entails(args[0] == x):
            return r
    r = c.real("sqrt")
    c.assume(z3.Implies(x >= 0, z3.And(r >= 0, (r == 0) == (x == 0), (r < 1) == (x < 1), (r == 1) == (x == 1), r * r == x)))
    c.registry.append(("sqrt", (x,), r))
    return r


def pow_expr(x, e):
    """x ** e for real exponent: uninterpreted, with the axioms for x > 0, e > 0 (and reciprocal for e < 0)."""
    c = ctx()
    for kind, args, r in c.registry:
        if kind == "pow" and c.entails(z3.And(args[0] == x, args[1] == e)):
            return r
    for kind, args, r in c.registry:
        if kind == "pow" and c.entails(z3.And(args[0] == x, args[1] == -e, x > 0)):
            p = c.real("pow")
            c.assume(p * r == 1)
            c.assume(p > 0)
            return p
    r = c.real("pow")
    c.assume(z3.Implies(x > 0, z3.And(
        r > 0,
        z3.Implies(e > 0, z3.And((x < 1) == (r < 1), (x == 1) == (r == 1))),
        z3.Implies(e < 0, z3.And((x < 1) == (r > 1), (x == 1) == (r == 1))))))
    c.assume(z3.Implies(z3.And(x == 0, e > 0), r == 0))
    c.assume(z3.Implies(e == 1, r == x))
    c.registry.append(("pow", (x, e), r))
    return r


def absval(x):
    if isinstance(x, Arr):
        return x._map(lambda e: z3.If(real_of(e, x.dtype) >= 0, real_of(e, x.dtype), -real_of(e, x.dtype)))
    if isinstance(x, SI):
        return SI(z3.If(x.e >= 0, x.e, -x.e))
    e = to_real(x)
    return SR(z3.If(e >= 0, e, -e))


# ------------------------------------------------------------------ arrays

class Storage:
    """Memory of an array: content maps an index tuple (ints or z3 Ints) to an expression."""

    def __init__(self, shape, content, dtype="f", name="arr"):
        self.shape = tuple(shape)
        self._content = content
        self.dtype = dtype
        self.name = name
        self.serial = ctx().new_serial(self)

    def read(self, idx):
        return self._content(idx)

    @property
    def content(self):
        return self._content

    def write(self, fn):
        ctx().note_write(("stor", self.serial), self)
        self._content = fn

    def havoc(self):
        self._content = fresh_content(len(self.shape), self.dtype, self.name)


class LiveStorage(Storage):
    """Storage whose content is given by ghost state at the time of reading (model caches)."""

    writable = False

    def write(self, fn):
        raise Unsupported("write into a model's storage")


def fresh_content(rank, dtype="f", name="a"):
    c = ctx()
    sort = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[dtype]
    if rank == 0:
        e = z3.Const(c.fresh(name), sort)
        return lambda idx: e
    f = c.func(name, *([z3.IntSort()] * rank + [sort]))
    return lambda idx: f(*[dim_expr(i) for i in idx])


def idx_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp_int(dim_expr(a) + dim_expr(b))


def idx_eq(a, b):
    """True / False / z3 Bool"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = z3.simplify(dim_expr(a) == dim_expr(b))
    return True if z3.is_true(e) else False if z3.is_false(e) else e


def idx_in(a, lo, n):
    """lo <= a < lo + n"""
    if isinstance(a, int) and isinstance(lo, int) and isinstance(n, int):
        return lo <= a < lo + n
    e = z3.simplify(z3.And(dim_expr(lo) <= dim_expr(a), dim_expr(a) < dim_expr(lo) + dim_expr(n)))
    return True if z3.is_true(e) else False if z3.is_false(e) else e


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().decide(dim_expr(a) == dim_expr(b))


def ite(c, a, b):
    if c is True:
        return a() if callable(a) else a
    if c is False:
        return b() if callable(b) else b
    x = a() if callable(a) else a
    y = b() if callable(b) else b
    if x.eq(y):
        return x
    return z3.If(c, x, y)


class Arr:
    """View into a Storage.  maps: per storage dim ('fix', i) or ('ax', viewaxis, start, step)."""

    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, storage, shape=None, maps=None):
        self.st = storage
        self.shape_ = tuple(storage.shape) if shape is None else tuple(shape)
        self.maps = [("ax", k, 0, 1) for k in range(len(storage.shape))] if maps is None else maps

    # -- construction
    @staticmethod
    def new(shape, content, dtype="f", name="tmp"):
        return Arr(Storage(shape, content, dtype, name))

    @staticmethod
    def fresh(shape, name="arr", dtype="f"):
        return Arr.new(shape, fresh_content(len(shape), dtype, name), dtype, name)

    @staticmethod
    def of(x, dtype=None):
        """Array of any value (copying only when needed)."""
        if isinstance(x, Arr):
            return x
        if isinstance(x, SList):
            return x.to_arr(dtype)
        if isinstance(x, (list, tuple)):
            if any_sym(x):
                return stack([Arr.of(v) for v in x])
            x = np.array(x)
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                raise Unsupported("object array")
            kind = {"b": "b", "i": "i", "u": "i", "f": "f"}[x.dtype.kind]
            arr = x.copy()

            def content(idx, arr=arr, kind=kind):
                if builtins.all(isinstance(i, int) for i in idx):
                    v = arr[tuple(idx)]
                    return z3.BoolVal(bool(v)) if kind == "b" else z3.IntVal(int(v)) if kind == "i" else q_or_fresh(v)
                # symbolic index into a concrete table
                k = next(j for j, i in enumerate(idx) if not isinstance(i, int))
                r = None
                for j in range(arr.shape[k]):
                    v = content(tuple(idx[:k]) + (j,) + tuple(idx[k + 1:]))
                    r = v if r is None else z3.If(dim_expr(idx[k]) == j, v, r)
                if r is None:
                    return ctx().real("empty")
                return r

            return Arr.new(arr.shape, content, kind, "const")
        if isinstance(x, SR):
            return Arr.new((), lambda idx, e=x.e: e, "f")
        if isinstance(x, (SI,)):
            return Arr.new((), lambda idx, e=x.e: e, "i")
        if isinstance(x, SB):
            return Arr.new((), lambda idx, e=x.e: e, "b")
        if isinstance(x, (bool, np.bool_)):
            return Arr.new((), lambda idx, e=z3.BoolVal(bool(x)): e, "b")
        if isinstance(x, (int, np.integer)):
            return Arr.new((), lambda idx, e=z3.IntVal(int(x)): e, "i")
        if is_num(x):
            e = q_or_fresh(x)
            return Arr.new((), lambda idx, e=e: e, "f")
        raise Unsupported("array of %r" % type(x))

    # -- attributes
    @property
    def dtype(self):
        return DT(self.st.dtype)

    @property
    def shape(self):
        return tuple(n if isinstance(n, int) else SI(n) for n in self.shape_)

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        r = 1
        for n in self.shape_:
            r = r * n if isinstance(r, int) and isinstance(n, int) else simp_int(dim_expr(r) * dim_expr(n))
        return r if isinstance(r, int) else SI(r)

    @property
    def T(self):
        k = len(self.shape_)
        maps = [m if m[0] == "fix" else ("ax", k - 1 - m[1], m[2], m[3]) for m in self.maps]
        return Arr(self.st, self.shape_[::-1], maps)

    @property
    def flat(self):
        return self.ravel()

    def __len__(self):
        n = self.shape_[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len of symbolic array in uninstrumented code")

    def length(self):
        if not self.shape_:
            raise TypeError("len() of unsized object")
        return self.shape_[0]

    # -- reading
    def _map_idx(self, idx, content=None):
        out = []
        for m in self.maps:
            if m[0] == "fix":
                out.append(m[1])
            else:
                _, ax, start, step = m
                i = idx[ax]
                if step == 1:
                    out.append(idx_add(start, i))
                elif isinstance(i, int) and isinstance(start, int):
                    out.append(start + step * i)
                else:
                    out.append(simp_int(dim_expr(start) + step * dim_expr(i)))
        return tuple(out)

    def at(self, idx):
        return self.st.read(self._map_idx(tuple(idx)))

    def snap(self):
        """Content closure at this moment."""
        c, self_ = self.st.content, self
        return lambda idx: c(self_._map_idx(tuple(idx)))

    def real_at(self, *idx):
        return real_of(self.at(idx), self.st.dtype)

    def _norm_index(self, i, n, what="index"):
        """Index i into dimension n -> non-negative index expression (IndexError explored)."""
        if isinstance(i, Arr) and i.shape_ == ():
            i = scalar(i.at(()), i.st.dtype)
        if isinstance(i, (int, np.integer)) and not isinstance(i, bool):
            i = int(i)
            if isinstance(n, int):
                if not -n <= i < n:
                    raise IndexError("index %d is out of bounds for axis with size %d" % (i, n))
                return i + n if i < 0 else i
            r = idx_add(n, i) if i < 0 else i
            ok = dim_expr(n) >= (-i if i < 0 else i + 1)
            if not ctx().decide(ok):
                raise IndexError("index out of bounds (symbolic size)")
            ctx().index_term(dim_expr(r))
            return r
        if isinstance(i, SI):
            e = i.e
            if not ctx().decide(z3.And(e >= 0, e < dim_expr(n))):
                if ctx().decide(z3.And(e < 0, e >= -dim_expr(n))):
                    e = e + dim_expr(n)
                else:
                    raise IndexError("index out of bounds")
            e = simp_int(e)
            ctx().index_term(dim_expr(e))
            return e
        raise Unsupported("index of type %r" % type(i))

    def _norm_slice(self, s, n):
        step = 1 if s.step is None else s.step
        if isinstance(step, SI):
            raise Unsupported("symbolic slice step")
        step = int(step)
        if isinstance(n, int) and all(x is None or isinstance(x, (int, np.integer)) for x in (s.start, s.stop)):
            r = range(*slice(s.start, s.stop, step).indices(n))
            return r.start, len(r), step
        if step == -1 and s.start is None and s.stop is None:
            return simp_int(dim_expr(n) - 1), n, -1
        if step != 1:
            raise Unsupported("slice step with symbolic bounds")

        def norm(x, default):
            if x is None:
                return default
            if isinstance(x, (int, np.integer)):
                x = int(x)
                if x < 0:
                    e = idx_add(n, x)
                    return e if isinstance(e, int) else self._clip(e, n)
                if x == 0:
                    return 0
                return self._clip(z3.IntVal(x), n)
            e = to_int(x)
            if not ctx().entails(e >= 0):
                if not ctx().decide(e >= 0):
                    e = e + dim_expr(n)
            return self._clip(e, n)

        lo = norm(s.start, 0)
        hi = norm(s.stop, n)
        ln = simp_int(dim_expr(hi) - dim_expr(lo))
        if not isinstance(ln, int):
            if not ctx().entails(ln >= 0):
                if not ctx().decide(ln >= 0):
                    ln = 0
        elif ln < 0:
            ln = 0
        return lo, ln, 1

    def _clip(self, e, n):
        c = ctx()
        if not c.entails(z3.And(e >= 0, e <= dim_expr(n))):
            if not c.decide(e >= 0):
                return 0
            if not c.decide(e <= dim_expr(n)):
                return n
        return simp_int(e)

    def _view(self, key):
        """-> ('scalar', Arr0) or ('view', Arr); raises for fancy keys."""
        if not isinstance(key, tuple):
            key = (key,)
        nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k if not isinstance(k, (Arr, SI, SR, np.ndarray, slice)) else 0 for k in key]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (len(self.shape_) - nspec) + key[p + 1:]
        else:
            key = key + (slice(None),) * (len(self.shape_) - nspec)
        if nspec > len(self.shape_):
            raise IndexError("too many indices")
        newshape, axmap = [], {}
        d = 0
        for k in key:
            if k is None:
                newshape.append(1)
                continue
            if isinstance(k, slice):
                lo, ln, step = self._norm_slice(k, self.shape_[d])
                axmap[d] = ("ax", len(newshape), lo, step)
                newshape.append(ln)
            else:
                axmap[d] = ("fix", self._norm_index(k, self.shape_[d]))
            d += 1
        maps = []
        for m in self.maps:
            if m[0] == "fix":
                maps.append(m)
                continue
            _, ax, start, step = m
            a = axmap[ax]
            if a[0] == "fix":
                maps.append(("fix", simp_int(dim_expr(start) + step * dim_expr(a[1]))))
            else:
                maps.append(("ax", a[1], simp_int(dim_expr(start) + step * dim_expr(a[2])), step * a[3]))
        return Arr(self.st, newshape, maps)

    def __getitem__(self, key):
        if isinstance(key, SList):
            key = key.to_arr()
        if isinstance(key, (Arr, np.ndarray, list)) and not (isinstance(key, Arr) and key.shape_ == () and key.st.dtype == "i"):
            key = Arr.of(key)
            if key.st.dtype == "b":
                from . import npshim
                return npshim.mask_filter(self, key)
            return self._take(key)
        if isinstance(key, tuple) and any(isinstance(k, (np.ndarray, list, SList)) or isinstance(k, Arr) and k.shape_ != () for k in key):
            raise Unsupported("fancy index in tuple")
        v = self._view(key)
        if v.shape_ == () and not (key == () if isinstance(key, tuple) else key is Ellipsis):
            return scalar(v.at(()), v.st.dtype)
        if v.shape_ == () and key == ():
            return scalar(v.at(()), v.st.dtype)
        return v

    def _take(self, ix):
        if ix.ndim != 1:
            raise Unsupported("fancy index of rank %d" % ix.ndim)
        src, ixc, n0 = self.snap(), ix.snap(), self.shape_[0]
        c = ctx()
        g = c.int("g")
        c2 = ixc((g,))
        # bounds: every index in range (negative indices are not modelled)
        rng = z3.Implies(z3.And(g >= 0, g < dim_expr(ix.shape_[0])), z3.And(c2 >= 0, c2 < dim_expr(n0)))
        for u in c.universals:
            pass
        with c.scratch():
            c.index_term(g)
            if not c.entails(rng):
                raise Unsupported("fancy index not provably in range")

        def content(idx):
            j = ixc((idx[0],))
            ctx().index_term(dim_expr(idx[0]))
            if not ctx().depth:
                ctx().index_term(j)
            return src((simp_int(j),) + tuple(idx[1:]))
        return Arr.new((ix.shape_[0],) + self.shape_[1:], content, self.st.dtype)

    # -- writing
    def __setitem__(self, key, value):
        if isinstance(key, (Arr, np.ndarray, list)) and not (isinstance(key, Arr) and key.shape_ == () and key.st.dtype == "i"):
            k = Arr.of(key)
            if k.st.dtype == "b":
                v = self
                m = k.snap()
                val = Arr.of(value)
                if val.ndim != 0:
                    raise Unsupported("masked store of an array")
                vs, old = val.snap(), v.snap()
                dt, vd = self.st.dtype, val.st.dtype
                nm = k.ndim
                v._store(lambda idx: ite_(m(idx[:nm]), conv(vs(()), vd, dt), old(idx)))
                return
            raise Unsupported("fancy store")
        v = self._view(key)
        v._assign(value)

    def _store(self, fn):
        self._assign_content(fn)

    def _assign(self, value):
        val = Arr.of(value)
        vs = val.snap()
        vshape, sh = val.shape_, self.shape_
        # broadcast value to sh
        while len(vshape) > len(sh) and vshape[0] == 1:
            inner = vs
            vs = lambda idx, inner=inner: inner((0,) + tuple(idx))
            vshape = vshape[1:]
        if len(vshape) > len(sh):
            raise ValueError("could not broadcast input array")
        off = len(sh) - len(vshape)
        one = []
        for k, n in enumerate(vshape):
            m = sh[k + off]
            if isinstance(n, int) and n == 1 and not (isinstance(m, int) and m == 1):
                one.append(True)
            else:
                one.append(False)
                if not dim_eq(n, m):
                    if dim_eq(n, 1):
                        one[-1] = True
                    else:
                        raise ValueError("could not broadcast input array")
        dt, vd = self.st.dtype, val.st.dtype

        def get(idx):
            return conv(vs(tuple(0 if o else i for o, i in zip(one, idx[off:]))), vd, dt)
        self._assign_content(get)

    def _assign_content(self, get):
        """storage[idx] := get(view idx) for the indices in this view."""
        old = self.st.content
        maps, shape = self.maps, self.shape_
        # a whole axis is stored: reads are within bounds, so no condition on that index
        whole = [m[0] == "ax" and isinstance(m[2], int) and m[2] == 0 and m[3] == 1 and dim_expr(shape[m[1]]).eq(dim_expr(n))
                 for m, n in zip(maps, self.st.shape)]

        def content(sidx):
            conds, vidx = [], [0] * len(shape)
            for m, i, w in zip(maps, sidx, whole):
                if w:
                    vidx[m[1]] = i
                    continue
                if m[0] == "fix":
                    e = idx_eq(i, m[1])
                    if e is False:
                        return old(sidx)
                    if e is not True:
                        conds.append(e)
                else:
                    _, ax, start, step = m
                    n = shape[ax]
                    if step == 1:
                        e = idx_in(i, start, n)
                        vi = idx_add(i, simp_int(-dim_expr(start)))
                    elif step == -1:
                        vi = simp_int(dim_expr(start) - dim_expr(i))
                        e = idx_in(vi, 0, n)
                    else:
                        if not (isinstance(i, int) and isinstance(start, int) and isinstance(n, int)):
                            raise Unsupported("strided symbolic store")
                        d, r = divmod(i - start, step)
                        e = r == 0 and 0 <= d < n
                        vi = d
                    if e is False:
                        return old(sidx)
                    if e is not True:
                        conds.append(e)
                    vidx[ax] = vi
            new = get(tuple(vidx))
            if not conds:
                return new
            o = old(sidx)
            if new.eq(o):
                return new
            return z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], new, o)
        memo = {}

        def memoised(sidx):
            k = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in sidx)
            r = memo.get(k)
            if r is None:
                r = (content(sidx), sidx)
                memo[k] = r
            return r[0]
        self.st.write(memoised)

    # -- elementwise
    def _map(self, fn, dtype="f"):
        s = self.snap()
        return result(self.shape_, lambda idx: fn(s(idx)), dtype)

    def _elem(self, op, other, swap=False):
        a, b = self, Arr.of(other)
        if swap:
            a, b = b, a
        dtype = "f"
        if op != "/" and a.st.dtype in "ib" and b.st.dtype in "ib":
            dtype = "i"
        if op == "/":
            check_den(b)

        ad, bd = a.st.dtype, b.st.dtype

        def f(x, y):
            if dtype == "i":
                x, y = as_int(x), as_int(y)
            else:
                x, y = real_of(x, ad), real_of(y, bd)
            return x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
        return broadcast2(a, b, f, dtype)

    def _pow(self, o):
        if is_num(o) and o == 2:
            s, dt = self.snap(), self.st.dtype
            return result(self.shape_, lambda idx: real_of(s(idx), dt) * real_of(s(idx), dt))
        if self.ndim == 0:
            return power(scalar(self.at(()), self.st.dtype), o)
        raise Unsupported("array power")

    def _elem_cmp(self, op, other):
        b = Arr.of(other) if not (is_num(other) and not finite(other)) else None
        if b is None:
            v = _cmp_inf(op, None, float(other))
            return result(self.shape_, lambda idx: z3.BoolVal(bool(v)), "b")
        ad, bd = self.st.dtype, b.st.dtype

        def f(x, y):
            x, y = real_of(x, ad), real_of(y, bd)
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
        return broadcast2(self, b, f, "b")

    def __add__(self, o):
        return self._elem("+", o)

    def __radd__(self, o):
        return self._elem("+", o, True)

    def __sub__(self, o):
        return self._elem("-", o)

    def __rsub__(self, o):
        return self._elem("-", o, True)

    def __mul__(self, o):
        return self._elem("*", o)

    def __rmul__(self, o):
        return self._elem("*", o, True)

    def __truediv__(self, o):
        return self._elem("/", o)

    def __rtruediv__(self, o):
        return self._elem("/", o, True)

    def _inplace(self, op, o):
        r = self._elem(op, o)
        if self.st.dtype != "f" and isinstance(r, (SR,)) or isinstance(r, Arr) and self.st.dtype == "i" and r.st.dtype == "f":
            raise TypeError("Cannot cast ufunc output from float to int")
        self._assign(r)
        return self

    def __iadd__(self, o):
        return self._inplace("+", o)

    def __isub__(self, o):
        return self._inplace("-", o)

    def __imul__(self, o):
        return self._inplace("*", o)

    def __itruediv__(self, o):
        return self._inplace("/", o)

    def __neg__(self):
        dt = self.st.dtype
        return self._map(lambda e: -real_of(e, dt) if dt != "i" else -e, "i" if dt == "i" else "f")

    def __abs__(self):
        return absval(self)

    def __pow__(self, o):
        return self._pow(o)

    def __rpow__(self, o):
        raise Unsupported("rpow")

    def __matmul__(self, o):
        from . import npshim
        return npshim.dot(self, o)

    def __rmatmul__(self, o):
        from . import npshim
        return npshim.dot(o, self)

    def dot(self, o):
        from . import npshim
        return npshim.dot(self, o)

    def __lt__(self, o):
        return self._elem_cmp("lt", o)

    def __le__(self, o):
        return self._elem_cmp("le", o)

    def __gt__(self, o):
        return self._elem_cmp("gt", o)

    def __ge__(self, o):
        return self._elem_cmp("ge", o)

    def __eq__(self, o):
        if o is None:
            return False
        return self._elem_cmp("eq", o)

    def __ne__(self, o):
        if o is None:
            return True
        return self._elem_cmp("ne", o)

    def __hash__(self):
        return id(self)

    def _boolarr(self, o, f):
        return broadcast2(self, Arr.of(o), f, "b")

    def __and__(self, o):
        return self._boolarr(o, lambda x, y: z3.And(x, y))

    __rand__ = __and__

    def __or__(self, o):
        return self._boolarr(o, lambda x, y: z3.Or(x, y))

    __ror__ = __or__

    def __invert__(self):
        if self.st.dtype != "b":
            raise Unsupported("~ of non-bool array")
        return self._map(lambda e: z3.Not(e), "b")

    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1:
            return bool(scalar(self.at((0,) * self.ndim), self.st.dtype))
        if isinstance(n, SI) and ctx().decide(n.e == 1):
            return bool(scalar(self.at((0,) * self.ndim), self.st.dtype))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self):
        raise Unsupported("float(array) in uninstrumented code")

    def __iter__(self):
        n = self.length()
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over a symbolic array in uninstrumented code")

    # -- methods
    def copy(self, order=None):
        return Arr.new(self.shape_, self.snap(), self.st.dtype, self.st.name + "_c")

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True, **_):
        d = dtype_code(dt)
        s, src = self.snap(), self.st.dtype
        if d == src and not copy:
            return self
        return Arr.new(self.shape_, lambda idx: conv(s(idx), src, d), d)

    def ravel(self):
        if self.ndim == 1:
            return self
        if self.ndim == 0:
            return Arr(self.st, (1,), list(self.maps))
        raise Unsupported("ravel")

    flatten = ravel

    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 and isinstance(sh[0], tuple) else sh
        if self.ndim == 1 and sh in ((-1,), (self.shape_[0],)):
            return Arr(self.st, self.shape_, self.maps)
        if self.ndim == 0 and sh in ((1,), (-1,)):
            return Arr(self.st, (1,), list(self.maps))
        if self.ndim == 1 and sh == (-1, 1):
            return self[:, None]
        if self.ndim == 1 and sh == (1, -1):
            return self[None, :]
        raise Unsupported("reshape")

    def fill(self, v):
        self._assign(v)

    def item(self):
        return scalar(self.at((0,) * self.ndim), self.st.dtype)

    def tolist(self):
        raise Unsupported("tolist")

    def __getattr__(self, name):
        if name in ("any", "all", "max", "min", "sum", "mean", "argsort", "cumprod", "repeat", "nonzero", "searchsorted", "prod", "cumsum", "argmax", "argmin", "clip", "squeeze", "round"):
            from . import npshim
            f = getattr(npshim.NP, name)
            return lambda *a, **k: f(self, *a, **k)
        raise AttributeError(name)

    def __repr__(self):
        return "Arr(%s,%s)" % (self.st.name, self.shape_)


class DT(str):
    """dtype token ('f','i','b') comparable with numpy dtypes"""

    @property
    def kind(self):
        return str(self)


def dtype_code(dt):
    if dt is None:
        return "f"
    if isinstance(dt, str) and str(dt) in ("f", "i", "b"):
        return str(dt)
    if isinstance(dt, str) and str(dt) == "":
        return "f"
    from .runtime import b_float, b_int, b_bool
    if dt is b_float:
        return "f"
    if dt is b_int:
        return "i"
    if dt is b_bool:
        return "b"
    try:
        return {"b": "b", "i": "i", "u": "i", "f": "f"}[np.dtype(dt).kind]
    except (TypeError, KeyError):
        raise Unsupported("dtype %r" % (dt,))


def as_int(e):
    return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(e) else e


def conv(e, src, dst):
    if src == dst:
        return e
    if dst == "f":
        return real_of(e, src)
    if dst == "i":
        if src == "b":
            return as_int(e)
        return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
    return e != 0


def ite_(c, a, b):
    c = z3.simplify(c)
    return a if z3.is_true(c) else b if z3.is_false(c) else z3.If(c, a, b)


def q_or_fresh(v):
    v = float(v)
    if math.isfinite(v):
        return q(v)
    c = ctx()
    if v != v:
        return c.real("nan")
    raise Unsupported("infinity stored in an array")


def result(shape, content, dtype="f"):
    memo = {}

    def memoised(idx):
        k = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)
        r = memo.get(k)
        if r is None:
            r = (content(idx), idx)
            memo[k] = r
        return r[0]
    if shape == ():
        return scalar(memoised(()), dtype)
    return Arr.new(shape, memoised, dtype)


def broadcast2(a, b, f, dtype):
    n = max(len(a.shape_), len(b.shape_))
    sa = (None,) * (n - len(a.shape_)) + a.shape_
    sb = (None,) * (n - len(b.shape_)) + b.shape_
    shape, ma, mb = [], [], []
    for x, y in zip(sa, sb):
        if x is None or (isinstance(x, int) and x == 1 and y is not None):
            shape.append(y)
            ma.append(False if x is None else 0)
            mb.append(True)
        elif y is None or (isinstance(y, int) and y == 1):
            shape.append(x)
            ma.append(True)
            mb.append(False if y is None else 0)
        elif dim_eq(x, y):
            shape.append(x)
            ma.append(True)
            mb.append(True)
        elif dim_eq(x, 1):
            shape.append(y)
            ma.append(0)
            mb.append(True)
        elif dim_eq(y, 1):
            shape.append(x)
            ma.append(True)
            mb.append(0)
        else:
            raise ValueError("operands could not be broadcast together")
    ca, cb = a.snap(), b.snap()

    def sel(m, idx):
        return tuple(i if k is True else 0 for k, i in zip(m, idx) if k is not False)
    return result(tuple(shape), lambda idx: f(ca(sel(ma, idx)), cb(sel(mb, idx))), dtype)


def check_den(b):
    """Elementwise division: the denominator must be provably non-zero, else the path is marked."""
    c = ctx()
    if b.ndim == 0:
        e = z3.simplify(real_of(b.at(()), b.st.dtype))
        if z3.is_rational_value(e):
            if e.numerator_as_long() == 0:
                c.events.append(("div0", None, e))
            return
        if not c.decide(e != 0):
            c.events.append(("div0", None, e))
            raise Unsupported("array divided by zero")
        return
    g = tuple(c.int("g") for _ in b.shape_)
    e = real_of(b.at(g), b.st.dtype)
    for i, n in zip(g, b.shape_):
        pass
    if not c.entails(e != 0, ms=500):
        c.events.append(("div0", None, e))
        c.run.notes.add("elementwise division whose denominator is not provably non-zero")


def any_sym(x):
    for v in x:
        if isinstance(v, (SR, SI, SB, Arr)):
            return True
        if isinstance(v, SList):
            if v.symbolic or any_sym(v.items):
                return True
        if isinstance(v, (list, tuple)) and any_sym(v):
            return True
    return False


def stack(parts):
    """np.array([...]) of equally shaped parts along a new first axis."""
    if not parts:
        return Arr.new((0,), lambda idx: z3.RealVal(0), "f")
    sh = parts[0].shape_
    for p in parts[1:]:
        if len(p.shape_) != len(sh) or not all(dim_eq(x, y) for x, y in zip(p.shape_, sh)):
            raise Unsupported("ragged array")
    dt = "f" if any(p.st.dtype == "f" for p in parts) else parts[0].st.dtype
    snaps = [(p.snap(), p.st.dtype) for p in parts]

    def content(idx):
        i, rest = idx[0], tuple(idx[1:])
        if isinstance(i, int):
            s, d = snaps[i]
            return conv(s(rest), d, dt)
        r = None
        for j, (s, d) in enumerate(snaps):
            v = conv(s(rest), d, dt)
            r = v if r is None else z3.If(dim_expr(i) == j, v, r)
        return r
    return Arr.new((len(parts),) + sh, content, dt)


# ------------------------------------------------------------------ lists

class SList:
    """Python list; `items` concrete prefix-free content, or symbolic (length, getter) plus appended items."""

    def __init__(self, items=()):
        self.items = list(items)
        self.symbolic = False
        self.base_len = 0           # symbolic part: z3 Int
        self.base_get = None        # idx -> value
        self.serial = ctx().new_serial(self) if ctx() is not None else 0

    def _w(self):
        if ctx() is not None:
            ctx().note_write(("list", self.serial), self)

    def length(self):
        if not self.symbolic:
            return len(self.items)
        return simp_int(self.base_len + len(self.items))

    def append(self, v):
        self._w()
        self.items.append(v)

    def extend(self, vs):
        self._w()
        for v in vs:
            self.items.append(v)

    def insert(self, i, v):
        self._w()
        if self.symbolic:
            raise Unsupported("insert in symbolic list")
        self.items.insert(i, v)

    def clear(self):
        self._w()
        self.items = []
        self.symbolic = False

    def pop(self, i=-1):
        self._w()
        if self.items and i == -1:
            return self.items.pop()
        if not self.symbolic:
            return self.items.pop(i)
        if i != -1:
            raise Unsupported("pop(i) of a symbolic list")
        if not ctx().decide(self.base_len > 0):
            raise IndexError("pop from empty list")
        self.base_len = z3.simplify(self.base_len - 1)
        return self.base_get(self.base_len)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if not self.symbolic:
                return SList(self.items[i])
            if i.start is None and i.stop is None and i.step is None:
                return self.snapshot()
            raise Unsupported("slice of symbolic list")
        n = self.length()
        if not self.symbolic and isinstance(i, (int, np.integer)):
            return self.items[i]
        if isinstance(i, int) and i < 0:
            if -i <= len(self.items):
                return self.items[i]
            e = simp_int(self.base_len + (len(self.items) + i))
            if not ctx().decide(dim_expr(e) >= 0):
                raise IndexError("list index out of range")
        else:
            e = simp_int(to_int(i)) if not isinstance(i, int) else i
            if not ctx().decide(z3.And(dim_expr(e) >= 0, dim_expr(e) < dim_expr(n))):
                raise IndexError("list index out of range")
        return self.get(e)

    def get(self, e):
        """Element at a (valid) index expression."""
        if not self.symbolic:
            if isinstance(e, int):
                return self.items[e]
            return select(self.items, e)
        if not self.items:
            return self.base_get(dim_expr(e))
        for j, v in enumerate(self.items):
            if idx_eq(e, simp_int(self.base_len + j)) is True:
                return v
        d = z3.simplify(dim_expr(e) < self.base_len)
        if z3.is_true(d):
            return self.base_get(dim_expr(e))
        return ite_val(dim_expr(e) < self.base_len, self.base_get(dim_expr(e)),
                       select(self.items, simp_int(dim_expr(e) - self.base_len)))

    def __setitem__(self, i, v):
        self._w()
        if not self.symbolic and isinstance(i, (int, slice)):
            self.items[i] = v
            return
        if isinstance(i, int) and i < 0 and -i <= len(self.items):
            self.items[i] = v
            return
        raise Unsupported("store into a symbolic list")

    def __iter__(self):
        if self.symbolic:
            raise Unsupported("iteration over a symbolic list in uninstrumented code")
        return iter(self.items)

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported("len of a symbolic list in uninstrumented code")

    def __bool__(self):
        n = self.length()
        if isinstance(n, int):
            return n > 0
        return ctx().decide(n > 0)

    def __contains__(self, x):
        if self.symbolic:
            raise Unsupported("in symbolic list")
        for y in self.items:
            if x is y or bool(x == y):
                return True
        return False

    def __eq__(self, o):
        if isinstance(o, SList):
            o = o.items if not o.symbolic else None
        if self.symbolic or o is None:
            raise Unsupported("== of symbolic lists")
        return self.items == list(o)

    def __add__(self, o):
        if self.symbolic:
            raise Unsupported("+ of symbolic list")
        return SList(self.items + list(o))

    def __radd__(self, o):
        return SList(list(o) + self.items)

    def __mul__(self, n):
        if isinstance(n, int) and not self.symbolic:
            return SList(self.items * n)
        raise Unsupported("list * symbolic")

    def __hash__(self):
        return id(self)

    def index(self, v):
        return list(self).index(v)

    def sort(self, **k):
        if self.symbolic or any_sym(self.items):
            raise Unsupported("sort of a symbolic list")
        self._w()
        self.items.sort(**k)

    def reverse(self):
        if self.symbolic:
            raise Unsupported("reverse")
        self._w()
        self.items.reverse()

    def copy(self):
        return self.snapshot()

    def count(self, v):
        return list(self).count(v)

    def snapshot(self):
        r = SList(self.items)
        r.symbolic, r.base_len, r.base_get = self.symbolic, self.base_len, self.base_get
        return r

    def to_arr(self, dtype=None):
        if not self.symbolic:
            if not any_sym(self.items):
                return Arr.of(np.array([list(x) if isinstance(x, SList) else x for x in self.items]))
            return stack([Arr.of(v) for v in self.items])
        snap = self.snapshot()
        n = snap.length()
        probe = Arr.of(snap.base_get(ctx().int("p")))
        dt = probe.st.dtype

        def content(idx):
            v = snap.get(idx[0])
            return conv(Arr.of(v).at(tuple(idx[1:])), Arr.of(v).st.dtype, dt)
        return Arr.new((n,) + probe.shape_, content, dt)


def select(items, e):
    r = items[0]
    for j in range(1, len(items)):
        r = ite_val(dim_expr(e) == j, items[j], r)
    return r


def ite_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, Arr) or isinstance(b, Arr):
        x, y = Arr.of(a), Arr.of(b)
        sx, sy, dx, dy = x.snap(), y.snap(), x.st.dtype, y.st.dtype
        dt = dx if dx == dy else "f"
        return Arr.new(x.shape_, lambda idx: z3.If(c, conv(sx(idx), dx, dt), conv(sy(idx), dy, dt)), dt)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite_val(c, x, y) for x, y in zip(a, b))
    if getattr(type(a), "nbv_opaque", False) and type(a) is type(b):
        return type(a)(z3.If(c, a.e, b.e))
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return SB(z3.If(c, lift_bool(a), lift_bool(b)))
    if isinstance(a, (int, SI)) and isinstance(b, (int, SI)):
        return SI(z3.If(c, to_int(a), to_int(b)))
    return SR(z3.If(c, to_real(a), to_real(b)))
