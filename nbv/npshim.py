"""numpy with contracts: concrete arguments go to the real numpy, symbolic ones to the models below."""
import builtins
import math as _math

import numpy as np

from .engine import z3, ctx, Unsupported, lift_bool
from .sym import (Arr, SList, SR, SI, SB, _Num, any_sym, arith, absval, broadcast2, compare, conv, dim_eq, dim_expr,
                  dtype_code, finite, fresh_content, is_num, ite_val, power, q, real_of, result, scalar, simp_int, sqrt_expr,
                  stack, to_int, to_real, INF)


from . import ring
from .lin import nonlinear

all_ = builtins.all


def issym(x):
    if isinstance(x, (Arr, SR, SI, SB)):
        return True
    if isinstance(x, SList):
        return x.symbolic or any_sym(x.items)
    if isinstance(x, (list, tuple)):
        return any_sym(x)
    return False


def unlist(x):
    """SList -> list for the real numpy."""
    if isinstance(x, SList):
        return [unlist(v) for v in x.items]
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return tuple(unlist(v) for v in x)
    if isinstance(x, list):
        return [unlist(v) for v in x]
    return x


def real_dtype(k):
    if "dtype" in k:
        from . import runtime
        d = k["dtype"]
        k = dict(k)
        k["dtype"] = {runtime.b_float: builtins.float, runtime.b_int: builtins.int, runtime.b_bool: builtins.bool}.get(d, d) \
            if d.__hash__ and not isinstance(d, str) else ({"f": builtins.float, "i": builtins.int, "b": builtins.bool}.get(str(d), d))
    return k


class Shim:
    """Attribute access falls back to the real module; functions guard against symbolic arguments."""

    def __init__(self, real, models):
        self.__dict__["_real"] = real
        self.__dict__["_models"] = models

    def __getattr__(self, name):
        models, real = self.__dict__["_models"], self.__dict__["_real"]
        r = getattr(real, name, None)
        m = models.get(name)
        if m is None and r is None:
            raise AttributeError(name)
        if isinstance(m, Shim):
            return m
        if r is not None and (isinstance(r, type) or not callable(r)) and not isinstance(m, Shim):
            return r

        def call(*a, **k):
            sym = builtins.any(issym(x) for x in a) or builtins.any(issym(x) for x in k.values())
            if not sym and r is not None and not (m is not None and getattr(m, "always", False) and symbolic_mode()):
                return r(*[unlist(x) for x in a], **real_dtype({kk: unlist(v) for kk, v in k.items()}))
            if m is None:
                raise Unsupported("numpy.%s of symbolic values" % name)
            return m(*a, **k)
        call.__name__ = name
        return call

    def __setattr__(self, n, v):
        raise AttributeError


def symbolic_mode():
    return ctx() is not None


def always(f):
    """The model is used for concrete arguments too (its result may be written symbolically)."""
    f.always = True
    return f


M = {}


def model(f=None, name=None):
    def deco(g):
        M[name or g.__name__.rstrip("_")] = g
        return g
    return deco(f) if f is not None else deco


def shape_of(s):
    if isinstance(s, SList):
        s = s.items
    if isinstance(s, (list, tuple)):
        return tuple(simp_int(to_int(n)) for n in s)
    return (simp_int(to_int(s)),)


@model
@always
def empty(shape, dtype=None, order=None):
    return Arr.fresh(shape_of(shape), "empty", dtype_code(dtype))


def _const(shape, v, dtype):
    d = dtype_code(dtype)
    e = {"f": z3.RealVal(v), "i": z3.IntVal(v), "b": z3.BoolVal(bool(v))}[d]
    return Arr.new(shape_of(shape), lambda idx: e, d)


@model
@always
def zeros(shape, dtype=None, order=None):
    return _const(shape, 0, dtype)


@model
@always
def ones(shape, dtype=None, order=None):
    return _const(shape, 1, dtype)


@model
@always
def full(shape, v, dtype=None):
    return Arr.of(v)._map(lambda e: e) if False else _full(shape, v)


def _full(shape, v):
    a = Arr.of(v)
    if a.ndim:
        raise Unsupported("full with array")
    e = real_of(a.at(()), a.st.dtype)
    return Arr.new(shape_of(shape), lambda idx: e, "f")


@model
def empty_like(a, dtype=None):
    a = Arr.of(a)
    return Arr.fresh(a.shape_, "empty", a.st.dtype if dtype is None else dtype_code(dtype))


@model
def zeros_like(a, dtype=None):
    a = Arr.of(a)
    d = a.st.dtype if dtype is None else dtype_code(dtype)
    e = {"f": z3.RealVal(0), "i": z3.IntVal(0), "b": z3.BoolVal(False)}[d]
    return Arr.new(a.shape_, lambda idx: e, d)


@model
def ones_like(a, dtype=None):
    a = Arr.of(a)
    d = a.st.dtype if dtype is None else dtype_code(dtype)
    e = {"f": z3.RealVal(1), "i": z3.IntVal(1), "b": z3.BoolVal(True)}[d]
    return Arr.new(a.shape_, lambda idx: e, d)


def _ndmin(a, n):
    while a.ndim < n:
        a = a[None]
    return a


@model
@always
def array(x, dtype=None, copy=True, ndmin=0, order=None):
    if not issym(x) and not isinstance(x, SList):
        r = np.array(unlist(x), **real_dtype(dict(dtype=dtype)) if dtype is not None else {}, ndmin=ndmin)
        # 0-d float arrays may be updated in place with symbolic values (step sizes)
        if r.dtype.kind == "f" and r.shape == () and np.isfinite(r):
            return Arr.of(r)
        return r
    a = Arr.of(x)
    d = a.st.dtype if dtype is None else dtype_code(dtype)
    src, s0 = a.st.dtype, a.snap()
    r = Arr.new(a.shape_, (lambda idx: conv(s0(idx), src, d)) if d != src else s0, d, "array")
    return _ndmin(r, ndmin)


@model
def asarray(x, dtype=None, order=None):
    if isinstance(x, Arr):
        return x if dtype is None or dtype_code(dtype) == x.st.dtype else x.astype(dtype)
    a = Arr.of(x)
    return a if dtype is None else a.astype(dtype, copy=False)


M["ascontiguousarray"] = lambda x, dtype=None: _ndmin(asarray(x, dtype), 1)
M["asfarray"] = lambda x, dtype=None: asarray(x, "f")


@model
def asanyarray(x, dtype=None):
    return asarray(x, dtype)


@model
def copy(x, order=None, subok=False):
    return Arr.of(x).copy()


@model
def atleast_1d(*xs):
    r = [_ndmin(Arr.of(x), 1) for x in xs]
    return r[0] if len(r) == 1 else r


@model
def size(x, axis=None):
    a = Arr.of(x)
    return a.size if axis is None else a.shape[axis]


@model
def ndim(x):
    return Arr.of(x).ndim


@model
def shape(x):
    return Arr.of(x).shape


@model
def transpose(x):
    return Arr.of(x).T


# ---- elementwise

def ew1(name, f, dtype="f"):
    def g(x, **k):
        if isinstance(x, (SR, SI)) or is_num(x):
            return scalar(z3.simplify(f(to_real(x))), dtype)
        a = Arr.of(x)
        dt = a.st.dtype
        return a._map(lambda e: f(real_of(e, dt)), dtype)
    M[name] = g


def zabs(e):
    return z3.If(e >= 0, e, -e)


ew1("abs", zabs)
ew1("absolute", zabs)
ew1("fabs", zabs)
ew1("sign", lambda e: z3.If(e > 0, z3.RealVal(1), z3.If(e < 0, z3.RealVal(-1), z3.RealVal(0))))
ew1("square", lambda e: e * e)
ew1("isfinite", lambda e: z3.BoolVal(True), "b")
ew1("isnan", lambda e: z3.BoolVal(False), "b")
ew1("isinf", lambda e: z3.BoolVal(False), "b")
ew1("negative", lambda e: -e)


@model
def sqrt(x):
    if isinstance(x, Arr) and x.ndim:
        return reify_map("sqrt", x)
    return SR(sqrt_expr(to_real(x)))


def reify_map(name, a):
    f = z3.Function("map_" + name, z3.RealSort(), z3.RealSort())
    return a._map(lambda e: f(real_of(e, a.st.dtype)))


@model(name="power")
def power_(a, b):
    return power(a, b)


@model
def float_power(a, b):
    return power(a, b)


def ew2(name, f, dtype="f"):
    def g(a, b, **k):
        for x, y in ((a, b), (b, a)):
            if is_num(x) and not finite(x):
                if name in ("minimum", "maximum", "fmin", "fmax"):
                    small = (x < 0)
                    if x != x:
                        return x
                    return (x if small else y) if "min" in name else (y if small else x)
                return Arr.of(a)._elem_cmp(name, b)
        x, y = Arr.of(a), Arr.of(b)
        dx, dy = x.st.dtype, y.st.dtype
        return broadcast2(x, y, lambda p, r: f(real_of(p, dx), real_of(r, dy)), dtype)
    M[name] = g




def zmax(x, y):
    if x.get_id() > y.get_id():     # one term whatever the order of the arguments
        x, y = y, x
    return z3.If(x >= y, x, y)


def zmin(x, y):
    if x.get_id() > y.get_id():
        x, y = y, x
    return z3.If(x <= y, x, y)


ew2("maximum", zmax)
ew2("minimum", zmin)
ew2("fmax", zmax)
ew2("fmin", zmin)
for nm, op in (("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("equal", "eq"), ("not_equal", "ne")):
    M[nm] = lambda a, b, op=op: Arr.of(a)._elem_cmp(op, b) if isinstance(a, Arr) or isinstance(b, Arr) else compare(op, a, b)
for nm, op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/")):
    M[nm] = lambda a, b, op=op, **k: _out(arith(op, a, b), k)


def _out(r, k):
    o = k.get("out")
    if o is None:
        return r
    if isinstance(o, tuple):
        o = o[0]
    o[...] = r
    return o


@model
def clip(x, lo, hi):
    if lo is not None:
        x = M["maximum"](x, lo)
    if hi is not None:
        x = M["minimum"](x, hi)
    return x


@model
def logical_not(x):
    if isinstance(x, (SB, bool)):
        return SB(z3.Not(lift_bool(x)))
    return ~Arr.of(x)


@model
def logical_and(a, b):
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        return SB(z3.And(lift_bool(a), lift_bool(b)))
    return Arr.of(a) & b


@model
def logical_or(a, b):
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        return SB(z3.Or(lift_bool(a), lift_bool(b)))
    return Arr.of(a) | b


M["invert"] = lambda x: ~x


@model
def where(c, a=None, b=None):
    if a is None:
        return M["nonzero"](c)
    c = Arr.of(c)
    x = broadcast2(c, Arr.of(a), lambda p, v: real_of(v), "f")
    return broadcast2(broadcast2_pair(c, a), Arr.of(b), lambda p, v: p, "f") if False else _where3(c, Arr.of(a), Arr.of(b))


def _where3(c, a, b):
    if c.ndim == 0:
        return ite_val(c.at(()), a if a.ndim else scalar(a.at(()), a.st.dtype), b if b.ndim else scalar(b.at(()), b.st.dtype))
    cs = c.snap()
    t = broadcast2(c, a, lambda p, v: real_of(v, a.st.dtype), "f").snap()
    f = broadcast2(c, b, lambda p, v: real_of(v, b.st.dtype), "f").snap()
    return result(c.shape_, lambda idx: z3.If(cs(idx), t(idx), f(idx)))


# ---- reductions over a boolean / real vector

def guard(i, n):
    return z3.And(i >= 0, i < dim_expr(n))


def _bool_vec(x):
    a = Arr.of(x)
    s, dt = a.snap(), a.st.dtype
    return a, (lambda idx: s(idx) if dt == "b" else real_of(s(idx), dt) != 0)


def concrete_shape(a):
    return builtins.all(isinstance(n, int) for n in a.shape_)


def indices(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in indices(shape[1:]):
            yield (i,) + r


@model
def any(x, axis=None):
    if isinstance(x, SB):
        return x
    a, b = _bool_vec(x)
    if concrete_shape(a):
        return SB(z3.Or([b(i) for i in indices(a.shape_)] or [z3.BoolVal(False)]))
    if a.ndim != 1:
        raise Unsupported("any of rank %d" % a.ndim)
    return quantified(lambda i: b((i,)), a.shape_[0], exists=True)


@model
def all(x, axis=None):
    if isinstance(x, SB):
        return x
    a, b = _bool_vec(x)
    if concrete_shape(a):
        return SB(z3.And([b(i) for i in indices(a.shape_)] or [z3.BoolVal(True)]))
    if a.ndim != 1:
        raise Unsupported("all of rank %d" % a.ndim)
    return quantified(lambda i: b((i,)), a.shape_[0], exists=False)


def quantified(p, n, exists):
    """exists / forall i in [0,n): p(i), as a fresh boolean with witness and universal instances."""
    c = ctx()
    r = c.bool("q")
    w = c.int("w")
    n = dim_expr(n)
    if exists:
        c.assume(z3.Implies(r, z3.And(guard(w, n), p(w))))
        c.universal(lambda i: z3.Implies(z3.And(z3.Not(r), guard(i, n)), z3.Not(p(i))))
    else:
        c.assume(z3.Implies(z3.Not(r), z3.And(guard(w, n), z3.Not(p(w)))))
        c.universal(lambda i: z3.Implies(z3.And(r, guard(i, n)), p(i)))
        chain_lemma(r, p, n)
    c.index_term(w)
    return SB(r)


def chain_lemma(r, p, n):
    """If p(i) says a(i) <= a(i+1) for a registered sequence a, then (induction) a(i) <= a(j) for i <= j."""
    c = ctx()
    g = c.int("g")
    e = p(g)
    e = z3.simplify(e)
    for name, seq in list(getattr(c, "sequences", [])):
        try:
            goal = z3.simplify(seq(g) <= seq(g + 1))
        except Exception:
            continue
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(z3.Not(z3.Implies(e, goal)))
        if s.check() == z3.unsat:
            pairwise(lambda i, j: z3.Implies(z3.And(r, i >= 0, i <= j, j <= n), seq(i) <= seq(j)))
            c.run.notes.add("lemma: adjacent order of a sequence extends to all pairs (induction)")


def pairwise(fn):
    """fn(i, j) for all pairs of index terms."""
    c = ctx()
    done = set()
    fn = c.template(fn, 2)

    def inst(t):
        for s in list(c.index_terms.values()):
            for i, j in ((t, s), (s, t)):
                k = (i.get_id(), j.get_id())
                if k not in done:
                    done.add(k)
                    c.assume(fn(i, j))
        return z3.BoolVal(True)
    inst.plain = True
    c.universal(inst)


def register_sequence(name, seq):
    c = ctx()
    if not hasattr(c, "sequences"):
        c.sequences = []
    c.sequences.append((name, seq))


def _extreme(x, op):
    if isinstance(x, (SR, SI)):
        return x
    a = Arr.of(x)
    s, dt = a.snap(), a.st.dtype
    c = ctx()
    f = lambda i: real_of(s((i,)), dt)
    if concrete_shape(a):
        es = [real_of(s(i), dt) for i in indices(a.shape_)]
        if not es:
            raise ValueError("zero-size array to reduction operation")
        r = es[0]
        for e in es[1:]:
            r = z3.If(e >= r if op == "max" else e <= r, e, r)
        return SR(r)
    if a.ndim != 1:
        raise Unsupported("extreme of rank %d" % a.ndim)
    n = dim_expr(a.shape_[0])
    if not c.decide(n > 0):
        raise ValueError("zero-size array to reduction operation which has no identity")
    m, w = c.real(op), c.int("w")
    c.assume(z3.And(guard(w, n), f(w) == m))
    c.index_term(w)
    c.universal(lambda i: z3.Implies(guard(i, n), f(i) <= m if op == "max" else f(i) >= m))
    return SR(m)


M["max"] = M["amax"] = lambda x, axis=None: _extreme(x, "max")
M["min"] = M["amin"] = lambda x, axis=None: _extreme(x, "min")


def reduction(name, a):
    """Uninterpreted reduction of a vector, equal for provably equal vectors."""
    c = ctx()
    a = Arr.of(a)
    s, dt = a.snap(), a.st.dtype
    f = lambda i: real_of(s((i,)), dt)
    n = a.shape_[0]
    return SR(reify("red:" + name, (), f, n, lambda: c.real(name)))


def reify(kind, scalars, vec, n, make):
    """Result of an uninterpreted function of (scalars, vector): reused if the arguments are provably equal."""
    c = ctx()
    g = z3.Int("gi!")     # arbitrary component, mentioned nowhere else
    v = vec(g)
    cands = [(args, r) for kind2, args, r in c.registry if kind2 == kind and len(args[0]) == len(scalars)]
    for (sc2, vec2, n2), r in cands:
        if all_(ring.equal(x, y) for x, y in zip(scalars, sc2)) and ring.equal(v, vec2(g)) and dim_expr(n).eq(dim_expr(n2)):
            return r
    for (sc2, vec2, n2), r in (cands if c.run.cfg.get("reify_smt", True) else ()):
        eqs = [x == y for x, y in zip(scalars, sc2)] + [z3.Implies(guard(g, n), v == vec2(g)), dim_expr(n) == dim_expr(n2)]
        e = z3.simplify(z3.And(*eqs))
        if z3.is_true(e) or (not z3.is_false(e) and not nonlinear(e) and small(e) and c.entails(e, ms=300)):
            return r
    r = make()
    c.registry.append((kind, (tuple(scalars), vec, n), r))
    return r


def small(e, limit=150):
    """Few enough nodes for an auxiliary query."""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > limit:
            return False
        todo.extend(x.children())
    return True


def nonneg(e):
    """Syntactically non-negative."""
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    if z3.is_app(e):
        k, ch = e.decl().kind(), e.children()
        if k == z3.Z3_OP_MUL:
            n = {}
            for x in ch:
                n[x.get_id()] = n.get(x.get_id(), 0) + 1
            return builtins.all(n[x.get_id()] % 2 == 0 or nonneg(x) for x in ch)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_DIV):
            return builtins.all(nonneg(x) for x in ch)
        if k == z3.Z3_OP_ITE and len(ch) == 3:
            return nonneg(ch[1]) and nonneg(ch[2])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            return ch[1].denominator_as_long() == 1 and ch[1].numerator_as_long() % 2 == 0
    return False


@model
def mean(x, axis=None):
    a = Arr.of(x)
    return sum_(a) / a.size


@model(name="sum")
def sum_(x, axis=None):
    if isinstance(x, (SR, SI)):
        return x
    a = Arr.of(x)
    s, dt = a.snap(), a.st.dtype
    if a.ndim == 2 and axis == 0 and isinstance(a.shape_[0], int):
        return result((a.shape_[1],), lambda idx: z3.Sum([real_of(s((i,) + tuple(idx)), dt) for i in range(a.shape_[0])]))
    if concrete_shape(a) and axis in (None, 0) and a.ndim <= 1:
        if dt in "ib":
            return scalar(z3.simplify(z3.Sum([conv(s(i), dt, "i") for i in indices(a.shape_)] or [z3.IntVal(0)])), "i")
        return SR(z3.Sum([real_of(s(i), dt) for i in indices(a.shape_)] or [z3.RealVal(0)]))
    if a.ndim == 1 and dt == "b":
        # number of true entries of a monotone mask
        k, kind = prefix_count(a)
        if kind is None:
            raise Unsupported("count of a general mask")
        return SI(k) if kind == "prefix" else SI(z3.simplify(dim_expr(a.shape_[0]) - k))
    if a.ndim == 1:
        return vsum(a)
    raise Unsupported("sum")


def vsum(a):
    """Sum of a vector of symbolic length (uninterpreted, non-negative for non-negative terms)."""
    r = reduction("sum", a)
    s, c = a.snap(), ctx()
    e = real_of(s((z3.Int("gi!"),)), a.st.dtype)
    if nonneg(e) or (not nonlinear(e) and small(e) and c.entails(e >= 0, ms=300)):
        c.assume(r.e >= 0)
    return r


M["count_nonzero"] = lambda x: sum_(Arr.of(x) if Arr.of(x).st.dtype == "b" else Arr.of(x)._elem_cmp("ne", 0))


def dot(a, b, out=None):
    x, y = Arr.of(a), Arr.of(b)
    if x.ndim == 0 or y.ndim == 0:
        raise ValueError("matmul: scalar operand")
    n, m = x.shape_[-1], y.shape_[0] if y.ndim == 1 else y.shape_[-2]
    if not dim_eq(n, m):
        raise ValueError("matmul: mismatch in core dimension")
    if not isinstance(n, int):
        if isinstance(m, int):
            n = m
        elif x.ndim == 1 and y.ndim == 1:
            p = x * y
            return vsum(p)
        else:
            raise Unsupported("contraction over a symbolic dimension")
    sx, sy, dx, dy = x.snap(), y.snap(), x.st.dtype, y.st.dtype
    sh = x.shape_[:-1] + (y.shape_[1:] if y.ndim == 2 else ())
    if y.ndim > 2 or x.ndim > 2:
        raise Unsupported("dot of rank > 2")
    k = len(x.shape_) - 1

    def content(idx):
        i, j = tuple(idx[:k]), tuple(idx[k:])
        terms = []
        for l in range(n):
            u, v = real_of(sx(i + (l,)), dx), real_of(sy((l,) + j), dy)
            if z3.is_rational_value(u) and u.numerator_as_long() == 0 or z3.is_rational_value(v) and v.numerator_as_long() == 0:
                continue
            terms.append(u * v)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]
    return result(sh, content)


M["dot"] = M["matmul"] = dot


@model
def outer(a, b):
    x, y = Arr.of(a), Arr.of(b)
    return x[:, None] * y[None, :]


@model
def repeat(x, n, axis=None):
    n = simp_int(to_int(n))
    a = Arr.of(x)
    if a.ndim == 0:
        e, dt = a.at(()), a.st.dtype
        return Arr.new((n,), lambda idx: e, dt)
    raise Unsupported("repeat of an array")


@model
def tile(x, n):
    return repeat(x, n)


def _cum(op):
    def f(x, axis=None):
        a = Arr.of(x)
        if a.ndim != 1 or not isinstance(a.shape_[0], int):
            raise Unsupported("cumulative op over a symbolic dimension")
        s, dt = a.snap(), a.st.dtype
        vals, r = [], None
        for i in range(a.shape_[0]):
            e = real_of(s((i,)), dt)
            r = e if r is None else (r * e if op == "*" else r + e)
            vals.append(r)
        return stack([Arr.of(SR(v)) for v in vals])
    return f


M["cumprod"] = _cum("*")
M["cumsum"] = _cum("+")


@model
def prod(x):
    a = Arr.of(x)
    if not concrete_shape(a):
        raise Unsupported("prod")
    r = z3.RealVal(1)
    for i in indices(a.shape_):
        r = r * real_of(a.at(i), a.st.dtype)
    return SR(r)


@model
def arange(*args):
    if len(args) == 1:
        n = simp_int(to_int(args[0]))
        return Arr.new((n,), lambda idx: dim_expr(idx[0]), "i")
    if len(args) == 2:
        lo, hi = to_int(args[0]), to_int(args[1])
        return Arr.new((simp_int(hi - lo),), lambda idx: z3.simplify(dim_expr(idx[0]) + lo), "i")
    raise Unsupported("arange")


# ---- order

def prefix_count(mask):
    """(k, kind): mask is True exactly on [0,k) ('prefix') or on [k,n) ('suffix'); kind None if not provable."""
    c = ctx()
    m = mask.snap()
    n = dim_expr(mask.shape_[0])
    g = c.int("g")
    with c.scratch():
        c.index_term(g)
        c.index_term(z3.simplify(g + 1))
        rng = z3.And(g >= 0, g + 1 < n)
        e0, e1 = m((g,)), m((z3.simplify(g + 1),))
        if c.entails(z3.Implies(z3.And(rng, e1), e0)):
            kind = "prefix"
        elif c.entails(z3.Implies(z3.And(rng, e0), e1)):
            kind = "suffix"
        else:
            return None, None
    low = (lambda i: m((i,))) if kind == "prefix" else (lambda i: z3.Not(m((i,))))

    def make():
        k = c.int("cut")
        c.assume(z3.And(k >= 0, k <= n))
        c.universal(lambda i: z3.Implies(guard(i, n), low(i) == (i < k)))
        c.index_term(k)
        c.index_term(z3.simplify(k - 1))
        c.run.notes.add("lemma: a monotone mask is a prefix or suffix (induction)")
        return k
    key = lambda i: z3.If(low(i), z3.IntVal(1), z3.IntVal(0))
    # masks are compared within their range only
    for kind2, args, r in c.registry:
        if kind2 == "cut":
            low2, n2 = args
            if c.entails(z3.And(n2 == n, z3.Implies(guard(g, n), low2(g) == low(g)))):
                return r, kind
    k = make()
    c.registry.append(("cut", (low, n), k))
    return k, kind


def mask_filter(a, mask):
    """a[mask] for a boolean vector."""
    c = ctx()
    src, n = a.snap(), a.shape_[0]
    if mask.ndim != 1:
        raise Unsupported("mask rank")
    if not dim_eq(n, mask.shape_[0]):
        raise IndexError("boolean index did not match")
    m = mask.snap()
    if isinstance(n, int):
        idx = [i for i in range(n) if c.decide(m((i,)))]
        return Arr.new((len(idx),) + a.shape_[1:],
                       lambda ix: src((idx[ix[0]],) + tuple(ix[1:])) if isinstance(ix[0], int) else _sel(src, idx, ix), a.st.dtype)
    k, kind = prefix_count(mask)
    if kind == "prefix":
        return Arr.new((simp_int(k),) + a.shape_[1:], src, a.st.dtype)
    if kind == "suffix":
        def rest(ix):
            j = simp_int(dim_expr(ix[0]) + k)
            if not ctx().depth:
                ctx().index_term(dim_expr(j))
            return src((j,) + tuple(ix[1:]))
        return Arr.new((simp_int(dim_expr(n) - k),) + a.shape_[1:], rest, a.st.dtype)
    # general filter: strictly increasing selection s of the true positions
    cnt = c.int("cnt")
    s = c.func("sel", z3.IntSort(), z3.IntSort())
    r = c.func("rank", z3.IntSort(), z3.IntSort())
    nn = dim_expr(n)
    c.assume(z3.And(cnt >= 0, cnt <= nn))
    c.universal(lambda i: z3.Implies(guard(i, cnt), z3.And(guard(s(i), nn), m((s(i),)), r(s(i)) == i)))
    c.universal(lambda i: z3.Implies(z3.And(guard(i, nn), m((i,))), z3.And(guard(r(i), cnt), s(r(i)) == i)))

    def content(ix):
        c2 = ctx()
        c2.index_term(dim_expr(ix[0]))
        c2.index_term(s(dim_expr(ix[0])))
        return src((s(dim_expr(ix[0])),) + tuple(ix[1:]))
    return Arr.new((cnt,) + a.shape_[1:], content, a.st.dtype)


def _sel(src, idx, ix):
    r = None
    for j, i in enumerate(idx):
        v = src((i,) + tuple(ix[1:]))
        r = v if r is None else z3.If(ix[0] == j, v, r)
    return r if r is not None else src((0,) + tuple(ix[1:]))


@model
def nonzero(x):
    a = Arr.of(x)
    if a.ndim != 1 or a.st.dtype != "b":
        raise Unsupported("nonzero")
    return (mask_filter(arange_like(a), a),)


def arange_like(a):
    n = a.shape_[0]
    return Arr.new((n,), lambda idx: dim_expr(idx[0]), "i")


M["flatnonzero"] = lambda x: nonzero(x)[0]


@model
def argsort(x, axis=-1, kind=None):
    a = Arr.of(x)
    if a.ndim != 1:
        raise Unsupported("argsort rank")
    c = ctx()
    s, dt = a.snap(), a.st.dtype
    n = dim_expr(a.shape_[0])
    # argsort of a permutation that this engine produced: its inverse
    perm = getattr(c, "perms", [])
    for (p, qq, m) in perm:
        g = c.int("g")
        with c.scratch():
            c.index_term(g)
            same = dt == "i" and c.entails(z3.And(m == n, z3.Implies(guard(g, n), s((g,)) == p(g))))
        if same:
            c.run.notes.add("lemma: argsort of a permutation is its inverse")
            return Arr.new((a.shape_[0],), lambda idx: _perm_at(qq, p, idx[0]), "i")
    p = c.func("perm", z3.IntSort(), z3.IntSort())
    qq = c.func("inv", z3.IntSort(), z3.IntSort())
    f = lambda i: real_of(s((i,)), dt)
    c.universal(lambda i: z3.Implies(guard(i, n), z3.And(guard(p(i), n), qq(p(i)) == i, guard(qq(i), n), p(qq(i)) == i)))
    pairwise(lambda i, j: z3.Implies(z3.And(i >= 0, i <= j, j < n), f(p(i)) <= f(p(j))))
    if not hasattr(c, "perms"):
        c.perms = []
    c.perms.append((p, qq, n))
    return Arr.new((a.shape_[0],), lambda idx: _perm_at(p, qq, idx[0]), "i")


def _perm_at(p, qq, i):
    c = ctx()
    i = dim_expr(i)
    c.index_term(i)
    return p(i)


@model
def sort(x, axis=-1):
    a = Arr.of(x)
    return a[argsort(a)]


@model
def concatenate(parts, axis=0, out=None):
    parts = parts.items if isinstance(parts, SList) else list(parts)
    arrs = [Arr.of(p) for p in parts]
    nd = builtins.max(a.ndim for a in arrs)
    if builtins.any(a.ndim != nd for a in arrs):
        # an empty float list concatenated with a matrix has the wrong rank in numpy as well
        raise ValueError("all the input array dimensions must match exactly")
    if axis != 0:
        raise Unsupported("concatenate axis")
    dt = "f" if builtins.any(a.st.dtype == "f" for a in arrs) else arrs[0].st.dtype
    snaps = [(a.snap(), a.st.dtype, a.shape_[0]) for a in arrs]
    for a in arrs[1:]:
        for x, y in zip(a.shape_[1:], arrs[0].shape_[1:]):
            if not dim_eq(x, y):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    total = 0
    for _, _, n in snaps:
        total = simp_int(dim_expr(total) + dim_expr(n))

    def content(idx):
        i, rest = dim_expr(idx[0]), tuple(idx[1:])
        off = z3.IntVal(0)
        out = None
        chain = []
        for s, d, n in snaps:
            chain.append((simp_int(off), s, d, n))
            off = off + dim_expr(n)
        for k in range(len(chain) - 1, -1, -1):
            o, s, d, n = chain[k]
            j = simp_int(i - dim_expr(o))
            if isinstance(j, int) and isinstance(n, int) and not 0 <= j < n:
                if out is not None:
                    continue
                v = None
            else:
                ctx().index_term(dim_expr(j))
                v = conv(s((j,) + rest), d, dt)
            if out is None:
                out = v
            else:
                cond = z3.simplify(i < dim_expr(o) + dim_expr(n))
                out = v if z3.is_true(cond) else out if z3.is_false(cond) else z3.If(cond, v, out)
        return out
    return Arr.new((total,) + arrs[0].shape_[1:], content, dt)


M["hstack"] = lambda parts: concatenate([_ndmin(Arr.of(p), 1) for p in parts])
M["append"] = lambda a, b, axis=None: concatenate([_ndmin(Arr.of(a), 1), _ndmin(Arr.of(b), 1)])


@model
def vstack(parts):
    parts = parts.items if isinstance(parts, SList) else list(parts)
    if isinstance(parts, list) and builtins.all(Arr.of(p).ndim == 1 for p in parts):
        return stack([Arr.of(p) for p in parts])
    return concatenate([_ndmin(Arr.of(p), 2) for p in parts])


@model(name="stack")
def stack_(parts, axis=0):
    if axis != 0:
        raise Unsupported("stack axis")
    return Arr.of(parts if isinstance(parts, SList) else list(parts))


@model
def searchsorted(a, v, side="left"):
    a = Arr.of(a)
    if not (is_num(v) or isinstance(v, (SR, SI)) or isinstance(v, Arr) and v.ndim == 0):
        raise Unsupported("searchsorted of an array")
    mask = a._elem_cmp("lt" if side == "left" else "le", v)
    if concrete_shape(mask):
        return wrap(z3.simplify(z3.Sum([z3.If(mask.at(i), z3.IntVal(1), z3.IntVal(0)) for i in indices(mask.shape_)] or [z3.IntVal(0)])))
    k, kind = prefix_count(mask)
    if kind != "prefix":
        raise Unsupported("searchsorted in an array not provably sorted")
    return SI(k)


def wrap(e):
    e = simp_int(e)
    return e if isinstance(e, int) else SI(e)


@model
def diff(x):
    a = Arr.of(x)
    return a[1:] - a[:-1]


@model
def flip(x, axis=None):
    return Arr.of(x)[::-1]


@model
def isscalar(x):
    return isinstance(x, (SR, SI))


@model
def isclose(a, b, rtol=1e-5, atol=1e-8):
    return absval(a - b) <= atol + rtol * absval(b)


@model
def full_like(a, v):
    a = Arr.of(a)
    return _full(tuple(n if isinstance(n, int) else SI(n) for n in a.shape_), v)


@model
def float64(x=0.0):
    return x if isinstance(x, SR) else SR(to_real(x))


M["float_"] = M["double"] = float64


class _LinAlg:
    pass


def _norm(x, ord=None, axis=None):
    a = Arr.of(x)
    if a.ndim != 1:
        raise Unsupported("norm of rank %d" % a.ndim)
    if ord in (None, 2):
        return SR(sqrt_expr(to_real(sum_(a._pow(2)))))
    r = reduction("norm%s" % ord, a)
    ctx().assume(r.e >= 0)
    return r


def _solve(A, b):
    c = ctx()
    A, b = Arr.of(A), Arr.of(b)
    if c.choose("linalg.solve: singular matrix"):
        raise np.linalg.LinAlgError("Singular matrix")
    r = Arr.fresh(b.shape_, "solve")
    c.events.append(("solve", A, b, r))
    return r


LINALG = Shim(np.linalg, {"norm": _norm, "solve": _solve})
M["linalg"] = LINALG
NP = Shim(np, M)


def _isinf(x):
    return False


MATH = Shim(_math, {"sqrt": sqrt, "fabs": M["fabs"], "isfinite": lambda x: True, "isnan": lambda x: False, "isinf": _isinf,
                    "pow": lambda a, b: power(a, b)})


class _NPModule(Shim):
    pass
