"""Linear abstraction of nonlinear real arithmetic.

Every non-linear monomial (ring.py) is replaced by a real constant about which only
valid lemmas are added (signs, comparison with one, monotonicity).  The result is
weaker than the original formula: unsat answers carry over, sat answers do not.
"""
from . import ring
from .engine import z3

ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER)
CMP = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GE: lambda a, b: a >= b,
       z3.Z3_OP_GT: lambda a, b: a > b, z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_DISTINCT: lambda a, b: a != b}


_nl = {}


def const(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def nonlinear(e):
    """Contains a product of two non-constant reals (or a division by one)."""
    k = e.get_id()
    r = _nl.get(k)
    if r is not None:
        return r[0]
    v = False
    if z3.is_app(e):
        kd, ch = e.decl().kind(), e.children()
        if kd == z3.Z3_OP_MUL and z3.is_real(e) and sum(not const(c) for c in ch) > 1:
            v = True
        elif kd == z3.Z3_OP_DIV and not const(ch[1]):
            v = True
        elif kd == z3.Z3_OP_POWER:
            v = True
        else:
            v = any([nonlinear(c) for c in ch])
    _nl[k] = (v, e)
    return v


class Lin:
    def __init__(self, add):
        self.add = add
        self.memo = {}
        self.mono = {}
        self.groups = {}
        self.keep = []

    def formula(self, e):
        if not nonlinear(e):
            return e
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (self._formula(e), e)
        return r[0]

    def _formula(self, e):
        kd, ch = e.decl().kind(), e.children()
        if kd in CMP and len(ch) == 2 and z3.is_real(ch[0]):
            d = self.poly(ch[0], ch[1])
            if d is not None:
                return CMP[kd](d, z3.RealVal(0))
        if z3.is_real(e):
            return self.term(e)
        ch = [self.formula(c) if z3.is_bool(c) else self.term(c) for c in ch]
        if kd == z3.Z3_OP_AND:
            return z3.And(ch)
        if kd == z3.Z3_OP_OR:
            return z3.Or(ch)
        return e.decl()(*ch)

    def poly(self, a, b=None):
        try:
            p = ring.diff(a, b)[0] if b is not None else ring.ring().norm(a)
        except ring.NotPoly:
            return None
        ts = []
        for m, v in p.items():
            c = z3.Q(v.numerator, v.denominator)
            ts.append(c if not m else c * self.monomial(m))
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def term(self, e):
        if not z3.is_real(e) and not z3.is_bool(e):
            return e if not nonlinear(e) else e.decl()(*[self.term(c) for c in e.children()])
        if not nonlinear(e):
            return e
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (self._term(e), e)
        return r[0]

    def _term(self, e):
        if z3.is_bool(e):
            return self.formula(e)
        if e.decl().kind() in ARITH:
            p = self.poly(e)
            if p is not None:
                return p
            return z3.Real("opaque!%d" % e.get_id())
        return e.decl()(*[self.term(c) for c in e.children()])

    def atom(self, a):
        e = ring.ring().atoms[a]
        if isinstance(e, tuple) and e[0] == "max":
            e = e[1]
            if e.decl().kind() == z3.Z3_OP_UMINUS:
                return -self.term(e.arg(0))
            return self.term(e)
        if isinstance(e, tuple):      # ("inv", expr)
            k = ((a, 1),)
            if k not in self.mono:
                self.mono[k] = v = z3.Real("inv!%s" % a)
                self.inverse(v, self.term(e[1]))
            return self.mono[k]
        if z3.is_app(e) and e.decl().kind() in ARITH and nonlinear(e):
            return z3.Real("opaque!%d" % e.get_id())
        return self.term(e)

    def inverse(self, w, x):
        self.add(z3.And(z3.Implies(x > 0, w > 0), z3.Implies(x < 0, w < 0), z3.Implies(x == 1, w == 1),
                        z3.Implies(z3.And(x > 0, x < 1), w > 1), z3.Implies(x > 1, w < 1)))

    def monomial(self, m):
        """m: sorted tuple of (atom, exponent)"""
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        if m in self.mono:
            return self.mono[m]
        name = "mono!" + "_".join("%d^%d" % x for x in m)
        v = self.mono[m] = z3.Real(name)
        if len(m) == 1 and m[0][1] == -1:
            self.inverse(v, self.atom(m[0][0]))
            return v
        deg = sum(abs(n) for _, n in m)
        splits = []
        for i, (a, n) in enumerate(m):
            s = 1 if n > 0 else -1
            rest = m[:i] + (((a, n - s),) if n != s else ()) + m[i + 1:]
            splits.append((((a, s),), rest))
        if deg > 4:
            splits = splits[:1]
        if deg % 2 == 0 and all(n % 2 == 0 for _, n in m):
            self.add(v >= 0)
        for f, rest in splits:
            if not rest:
                continue
            x, y = self.monomial(f), self.monomial(rest)
            self.product(v, x, y)
            if f != rest:
                self.mono_lemmas(f, x, y, v)
                if len(splits) > 2 or deg > 2:
                    self.mono_lemmas(rest, y, x, v)
        return v

    def product(self, p, x, y):
        I, A = z3.Implies, z3.And
        cs = [I(A(x > 0, y > 0), p > 0), I(A(x < 0, y < 0), p > 0), I(A(x > 0, y < 0), p < 0), I(A(x < 0, y > 0), p < 0),
              (p == 0) == z3.Or(x == 0, y == 0)]
        for a, b in ((x, y), (y, x)):
            cs += [I(A(a > 0, b < 1), p < a), I(A(a > 0, b > 1), p > a), I(b == 1, p == a)]
        self.add(A(*cs))

    def mono_lemmas(self, key, x, y, p):
        g = self.groups.setdefault(key, [])
        if len(g) < 12:
            for y2, p2 in g:
                self.add(z3.And(z3.Implies(z3.And(x > 0, y < y2), p < p2), z3.Implies(z3.And(x > 0, y > y2), p > p2),
                                z3.Implies(y == y2, p == p2)))
            g.append((y, p))
