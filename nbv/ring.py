"""Normal form of real arithmetic: Laurent polynomials with exact rational coefficients over opaque atoms."""
from fractions import Fraction

from .engine import z3


class NotPoly(Exception):
    pass


class Ring:
    def __init__(self):
        self.atoms = {}     # key -> expr
        self.memo = {}
        self.invs = {}

    def atom(self, e):
        k = e.get_id()
        self.atoms[k] = e
        return {((k, 1),): Fraction(1)}

    def norm(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][0]
        try:
            r = self._norm(e)
        except NotPoly:
            r = self.atom(e)
        self.memo[k] = (r, e)
        return r

    def _norm(self, e):
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {(): v} if v else {}
        if z3.is_int_value(e):
            return {(): Fraction(e.as_long())} if e.as_long() else {}
        if z3.is_app(e):
            kd = e.decl().kind()
            ch = e.children()
            if kd == z3.Z3_OP_ADD:
                r = {}
                for c in ch:
                    padd(r, self.norm(c))
                return clean(r)
            if kd == z3.Z3_OP_SUB:
                r = dict(self.norm(ch[0]))
                for c in ch[1:]:
                    padd(r, self.norm(c), -1)
                return clean(r)
            if kd == z3.Z3_OP_UMINUS:
                return {m: -v for m, v in self.norm(ch[0]).items()}
            if kd == z3.Z3_OP_MUL:
                r = {(): Fraction(1)}
                for c in ch:
                    r = pmul(r, self.norm(c))
                return r
            if kd == z3.Z3_OP_DIV:
                return pmul(self.norm(ch[0]), self.inv(ch[1]))
            if kd == z3.Z3_OP_TO_REAL:
                c = ch[0]
                if z3.is_int_value(c):
                    return {(): Fraction(c.as_long())} if c.as_long() else {}
                if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                    return self.norm_int(c)
            if kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
                n = ch[1].numerator_as_long()
                b = self.norm(ch[0]) if n >= 0 else self.inv(ch[0])
                r = {(): Fraction(1)}
                for _ in range(abs(n)):
                    r = pmul(r, b)
                return r
            if kd == z3.Z3_OP_ITE:
                r = self.extremum(e, *ch)
                if r is not None:
                    return r
        return self.atom(e)

    def extremum(self, e, cond, a, b):
        """If(a >= b, a, b) and its variants: maximum of {a, b} (minimum as -max(-a, -b))."""
        sign = 1
        if z3.is_not(cond):
            cond, sign = cond.arg(0), -1
        if not z3.is_app(cond) or cond.num_args() != 2 or not cond.arg(0).is_real():
            return None
        kd = cond.decl().kind()
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            sign = -sign
        elif kd not in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            return None
        pa, pb = self.norm(a), self.norm(b)
        dc = clean(padd(dict(self.norm(cond.arg(0))), self.norm(cond.arg(1)), -1))
        dv = clean(padd(dict(pa), pb, -1))
        if not dv:
            return pa
        if set(dc) != set(dv):
            return None
        m0 = next(iter(dv))
        k = dc[m0] / dv[m0]
        if any(dc[m] != k * dv[m] for m in dv):
            return None
        if (k > 0) == (sign > 0):
            return self.max_atom(pa, pb, e)
        neg = lambda p: {m: -v for m, v in p.items()}
        return neg(self.max_atom(neg(pa), neg(pb), -e))

    def max_atom(self, pa, pb, e):
        key = ("max", frozenset((tuple(sorted(pa.items())), tuple(sorted(pb.items())))))
        if key not in self.invs:
            self.invs[key] = -1 - len(self.invs)
        h = self.invs[key]
        self.atoms.setdefault(h, ("max", e))
        return {((h, 1),): Fraction(1)}

    def norm_int(self, c):
        kd, ch = c.decl().kind(), c.children()
        f = lambda x: self.norm(z3.ToReal(x))
        if kd == z3.Z3_OP_ADD:
            r = {}
            for x in ch:
                padd(r, f(x))
            return clean(r)
        if kd == z3.Z3_OP_SUB:
            r = dict(f(ch[0]))
            for x in ch[1:]:
                padd(r, f(x), -1)
            return clean(r)
        if kd == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in f(ch[0]).items()}
        r = {(): Fraction(1)}
        for x in ch:
            r = pmul(r, f(x))
        return r

    def inv(self, e):
        p = self.norm(e)
        if len(p) == 1:
            (m, v), = p.items()
            return {tuple((a, -n) for a, n in m): 1 / v}
        if not p:
            return self.atom(z3.RealVal(1) / e)
        key = ("inv", tuple(sorted((m, v) for m, v in p.items())))
        if key not in self.invs:
            self.invs[key] = -1 - len(self.invs)
        h = self.invs[key]
        self.atoms.setdefault(h, ("inv", e))
        return {((h, 1),): Fraction(1)}

    def show(self, m):
        f = lambda a: str(self.atoms[a]).replace("\n", " ")[:60]
        return "*".join("%s^%d" % (f(a), n) if n != 1 else f(a) for a, n in m) or "1"


def padd(r, p, s=1):
    for m, v in p.items():
        r[m] = r.get(m, 0) + s * v
    return r


def clean(r):
    return {m: v for m, v in r.items() if v}


LIMIT = 4000


def pmul(p, q):
    r = {}
    if len(p) * len(q) > LIMIT:
        raise NotPoly("polynomial too large")
    for m1, v1 in p.items():
        for m2, v2 in q.items():
            d = dict(m1)
            for a, n in m2:
                d[a] = d.get(a, 0) + n
                if d[a] == 0:
                    del d[a]
            m = tuple(sorted(d.items()))
            r[m] = r.get(m, 0) + v1 * v2
    return clean(r)


R = None


def ring():
    global R
    if R is None:
        R = Ring()
    return R


def reset():
    global R
    R = Ring()


def diff(a, b):
    """Difference as a polynomial: (poly, poly of b)"""
    k = ring()
    pa, pb = k.norm(a), k.norm(b)
    return clean(padd(dict(pa), pb, -1)), pb


def equal(a, b):
    if a.eq(b):
        return True
    try:
        return not diff(a, b)[0]
    except NotPoly:
        return False


def close(a, b, tol):
    """(ok, detail): coefficients agree up to tol * max(1, |coefficient|)."""
    try:
        d, pb = diff(a, b)
    except NotPoly as ex:
        return False, str(ex)
    bad = []
    for m, v in d.items():
        if abs(v) > tol * max(1, abs(pb.get(m, 0))):
            bad.append("coefficient of %s: got %.17g, expected %.17g" % (ring().show(m), float(v + pb.get(m, 0)), float(pb.get(m, 0))))
    return not bad, "; ".join(bad[:6])
