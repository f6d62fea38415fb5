"""
Scalar elements of symbolic tensors.

An element is a term (Poly) together with a 0/1 term `bad` that is 1 exactly
where the IEEE value is NaN or infinite, or an explicit infinity.  Arithmetic is
over the reals; where the code under test leaves the domain of a function
(division by zero, root or logarithm of a negative number) `bad` records it.
"""

from __future__ import annotations

from fractions import Fraction

from . import poly as P
from .poly import P1, ZERO, Poly, Unsupported


class E:
    __slots__ = ("p", "bad", "inf", "mx")

    def __init__(self, p, bad=ZERO, inf=0, mx=None):
        self.p, self.bad, self.inf = p, bad, inf
        # ("max" | "min", a, b): the value is the larger (smaller) of a and b
        self.mx = mx

    def is_const(self):
        return self.inf != 0 or (self.p.is_const() and self.bad.is_const())

    def __repr__(self):
        if self.inf:
            return "inf" if self.inf > 0 else "-inf"
        if self.bad.is_zero():
            return P.show(self.p)
        return f"{P.show(self.p)} (bad: {P.show(self.bad)})"


def cst(x) -> E:
    if isinstance(x, float):
        if x != x:
            return E(ZERO, P1)
        if x in (float("inf"), float("-inf")):
            return E(ZERO, ZERO, 1 if x > 0 else -1)
    return E(P.const(x))


E0 = E(ZERO)
E1 = E(P1)
NAN = E(ZERO, P1)
PINF = E(ZERO, ZERO, 1)
NINF = E(ZERO, ZERO, -1)


def value(e: E) -> float:
    """Python float of a constant element."""
    if e.inf:
        return float("inf") * e.inf
    if not e.bad.is_const() or not e.p.is_const():
        raise Unsupported("value of a symbolic element")
    if not e.bad.is_zero():
        return float("nan")
    return float(e.p.const())


def b_or(a: Poly, b: Poly) -> Poly:
    if a.is_zero():
        return b
    if b.is_zero():
        return a
    if a.is_const() or b.is_const() or a == b:
        return P1 if (a.is_const() or b.is_const()) else a
    return a + b - a * b


def _sgn(e: E):
    """-1/0/1 for a decided sign else None"""
    if e.inf:
        return e.inf
    s = P.sign(e.p)
    if s is None or abs(s) == 1:
        return None
    return 0 if s == 0 else (1 if s > 0 else -1)


def neg(a: E) -> E:
    if a.inf:
        return E(ZERO, ZERO, -a.inf)
    return E(-a.p, a.bad)


def add(a: E, b: E) -> E:
    if a.inf or b.inf:
        if a.inf and b.inf:
            return a if a.inf == b.inf else NAN
        f, i = (b, a) if a.inf else (a, b)
        if not f.bad.is_zero():
            return NAN if f.bad.is_const() else _unsup("inf + maybe-nan")
        return i
    return E(a.p + b.p, b_or(a.bad, b.bad))


def sub(a: E, b: E) -> E:
    return add(a, neg(b))


def mul(a: E, b: E) -> E:
    if a.inf or b.inf:
        s, t = _sgn(a), _sgn(b)
        f = b if a.inf else a
        if not f.inf and not f.bad.is_zero():
            return NAN
        if s is None or t is None:
            return _unsup("inf * unknown sign")
        if s == 0 or t == 0:
            return NAN
        return PINF if s * t > 0 else NINF
    return E(a.p * b.p, b_or(a.bad, b.bad))


def _unsup(msg):
    raise Unsupported(msg)


def _nonzero(p: Poly):
    s = P.sign(p)
    if s is not None:
        return abs(s) == 2 if s != 0 else False
    d = P.W.decider
    if d is not None and d(("ne", p)) is True:
        return True
    return None


def div(a: E, b: E) -> E:
    if b.inf:
        if a.inf or not a.bad.is_zero():
            return NAN
        return E0
    if a.inf:
        t = _sgn(b)
        if t is None or t == 0:
            return _unsup("inf / unknown sign")
        return PINF if a.inf * t > 0 else NINF
    bad = b_or(a.bad, b.bad)
    if b.p.is_const():
        c = b.p.const()
        if c == 0:
            # x/0: nan for x == 0, a signed infinity otherwise.
            if bad.is_zero():
                s = _sgn(a)
                if s == 1:
                    return PINF
                if s == -1:
                    return NINF
            return E(ZERO, P1)
        return E(a.p.scale(1 / c), bad)
    if b.p.has_ind() is not None or a.p.has_ind() is not None and _nonzero(b.p) is not True:
        if _nonzero(b.p) is not True:
            z = P.lift(P.ind_eq, b.p)
            inv = P.lift(lambda q: P.ppow_total(q, -1), b.p)
            return E(a.p * inv, b_or(bad, z))
    nz = _nonzero(b.p)
    if nz is True:
        return E(a.p * P.pinv(b.p), bad)
    z = P.ind_eq(b.p)
    if z.is_zero():
        return E(a.p * P.pinv(b.p), bad)
    if z == P1:
        return E(ZERO, P1)
    return E((P1 - z) * a.p * P.pinv(b.p), b_or(bad, z))


def power(a: E, b: E) -> E:
    """a ** b"""
    r = _power(a, b)
    return r if P.W.flush is None or r.inf else P.W.flush(r)


def _power(a: E, b: E) -> E:
    if b.inf or a.inf:
        if a.inf and not b.inf and b.p.is_const() and a.inf > 0:
            c = b.p.const()
            return E1 if c == 0 else (PINF if c > 0 else E0)
        if a.inf and not b.inf and a.inf > 0 and b.bad.is_zero():
            t = P.sign_of(b.p)
            if t == 2:
                return PINF
            if P.sign_of(-b.p) == 2:
                return E0
        if b.inf and a.p.is_const() and a.p.const() >= 0 and not a.inf:
            c = a.p.const()
            if c == 1:
                return E1
            return PINF if (c > 1) == (b.inf > 0) else E0
        return _unsup("power of infinity")
    bad = b_or(a.bad, b.bad)
    if b.p.is_const():
        e = P._red(b.p.const())
        if e == 0:
            return E1
        if isinstance(e, int):
            if e > 0:
                return E(P.ppow(a.p, e), bad)
            return div(E1, E(P.ppow(a.p, -e) if -e == 1 else a.p, bad)) if e == -1 else _negpow(a, e, bad)
        # fractional
        return _fracpow(a, e, bad)
    if a.p.is_const():
        c = a.p.const()
        if c == 1:
            return E(P1, bad)
        if c > 0:
            return E(P.pexp(b.p * P.plog(a.p)), bad)
        if c == 0:
            s = _sgn(b)
            if s == 1:
                return E(ZERO, bad)
            return _unsup("0 ** symbolic")
        return _unsup("negative ** symbolic")
    if a.p.has_ind() is not None:
        return _lift_elem(lambda x: power(E(x), b), a.p, bad)
    if b.p.has_ind() is not None:
        return _lift_elem(lambda x: power(a, E(x)), b.p, bad)
    s = P.sign(a.p)
    if s == 2:
        return E(P.ppow_sym(a.p, b.p), bad)
    if s == 0:
        t = _sgn(b)
        if t == 1:
            return E(ZERO, bad)
    z = P.ind_le(a.p)
    if z.is_zero():
        return E(P.ppow_sym(a.p, b.p), bad)
    return _unsup(f"base of unknown sign with symbolic exponent: {P.show(a.p)}")


def _lift_elem(f, p: Poly, bad: Poly) -> E:
    """Case split on the indicators of p, f: Poly -> E."""
    i = p.has_ind()
    if i is None:
        r = f(p)
        return r if r.inf else E(r.p, b_or(bad, r.bad))
    c = P.var_poly(P.W.atoms[i])
    hi = _lift_elem(f, p.subst_ind(i, 1), bad)
    lo = _lift_elem(f, p.subst_ind(i, 0), bad)
    return where(c, hi, lo)


def _negpow(a: E, e: int, bad) -> E:
    nz = _nonzero(a.p)
    if nz is True:
        return E(P.ppow(a.p, e), bad)
    if a.p.is_zero():
        return PINF if bad.is_zero() else NAN
    if a.p.has_ind() is not None:
        z = P.lift(P.ind_eq, a.p)
        return E(P.lift(lambda q: P.ppow_total(q, e), a.p), b_or(bad, z))
    z = P.ind_eq(a.p)
    if z.is_zero():
        return E(P.ppow(a.p, e), bad)
    return E((P1 - z) * P.ppow(a.p, e), b_or(bad, z))


def _fracpow(a: E, e, bad) -> E:
    if a.p.has_ind() is not None:
        return _lift_elem(lambda x: _fracpow(E(x), e, ZERO), a.p, bad)
    s = P.sign(a.p)
    if s is not None and s < 0:
        if s == -2:
            return NAN
    if s == 0:
        return E(ZERO, bad) if e > 0 else (PINF if bad.is_zero() else NAN)
    if s == 2 or (s == 1 and e > 0):
        return E(P.ppow(a.p, e), bad)
    if e > 0:
        n = P.ind_lt(a.p)
    else:
        n = P.ind_le(a.p)
    if n.is_zero():
        return E(P.ppow(a.p, e), bad)
    if n == P1:
        return NAN
    return E((P1 - n) * P.ppow(a.p, e), b_or(bad, n))


HALF = Fraction(1, 2)


def sqrt(a: E) -> E:
    if a.inf:
        return a if a.inf > 0 else NAN
    return _fracpow(a, HALF, a.bad)


def exp(a: E) -> E:
    if a.inf:
        return PINF if a.inf > 0 else E0
    r = E(P.pexp(a.p), a.bad)
    return r if P.W.flush is None else P.W.flush(r)


def log(a: E) -> E:
    if a.inf:
        return a if a.inf > 0 else NAN
    if a.p.has_ind() is not None:
        return _lift_elem(lambda x: log(E(x)), a.p, a.bad)
    s = P.sign(a.p)
    if s == 2:
        return E(P.plog(a.p), a.bad)
    if s == 0:
        return NINF
    if s is not None and s < 0:
        return NAN
    z = P.ind_le(a.p)
    if z.is_zero():
        return E(P.plog(a.p), a.bad)
    return E((P1 - z) * P.plog(a.p), b_or(a.bad, z))


def fn(name):
    def f(a: E) -> E:
        if a.inf:
            if name in ("erf", "tanh"):
                return cst(a.inf)
            _unsup(f"{name}(inf)")
        return E(P.pfn(name, a.p), a.bad)

    return f


def abs_(a: E) -> E:
    if a.inf:
        return PINF
    return E(P.pabs(a.p), a.bad)


def round_to(kind):
    def f(a: E) -> E:
        if a.inf:
            return a
        return E(P.pround(kind, a.p), a.bad)

    return f


# comparisons: results are boolean elements (bad = 0).  A bad operand makes an
# ordered comparison false (NaN); for an infinity of unknown sign this is an
# over-approximation recorded by the caller.


def _cmp(f, a: E, b: E, infcase) -> E:
    if a.inf or b.inf:
        fl = b if a.inf else a
        if not fl.inf and not fl.bad.is_zero():
            return E(ZERO) if fl.bad.is_const() else _unsup("compare with maybe-nan")
        r = infcase(a.inf if a.inf else 0, b.inf if b.inf else 0)
        return E1 if r else E0
    r = f(a.p - b.p)
    bad = b_or(a.bad, b.bad)
    if not bad.is_zero():
        r = r * (P1 - bad)
    return E(r)


def _split(cmp, a: E, b: E):
    """max(x, y) <= b is x <= b and y <= b; the same for min and for b."""
    if a.mx is None and b.mx is None:
        return None
    if a.p.is_const() and b.p.is_const():
        return None
    if not (a.bad.is_zero() and b.bad.is_zero()):
        return None
    if a.mx is not None:
        kind, x, y = a.mx
        l, r = cmp(x, b), cmp(y, b)
        conj = kind == "max"
    else:
        kind, x, y = b.mx
        l, r = cmp(a, x), cmp(a, y)
        conj = kind == "min"
    return E(l.p * r.p) if conj else E(b_or(l.p, r.p))


def le(a, b):
    s = _split(le, a, b)
    if s is not None:
        return s
    return _cmp(P.ind_le, a, b, lambda x, y: x <= y)


def lt(a, b):
    s = _split(lt, a, b)
    if s is not None:
        return s
    return _cmp(lambda d: P.lift(P.ind_lt, d), a, b, lambda x, y: x < y)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return _cmp(lambda d: P.lift(P.ind_eq, d), a, b, lambda x, y: x == y)


def ne(a, b):
    r = eq(a, b)
    return E(P1 - r.p)


def isnan(a: E) -> E:
    return E0 if a.inf else E(a.bad)


def isinf(a: E) -> E:
    return E1 if a.inf else E0


def where(c: Poly, a: E, b: E) -> E:
    if c.is_const():
        return a if c.const() != 0 else b
    if a is b:
        return a
    if a.inf or b.inf:
        if a.inf == b.inf:
            return a
        raise Unsupported("symbolic choice of an infinity")
    bad = ZERO
    if not (a.bad.is_zero() and b.bad.is_zero()):
        bad = P.ite(c, a.bad, b.bad)
    return E(P.ite(c, a.p, b.p), bad)


def maximum(a: E, b: E) -> E:
    if a.inf or b.inf:
        if a.inf > 0 or b.inf > 0:
            return PINF
        return b if a.inf else a
    c = P.ind_le(a.p - b.p) if not (a.p - b.p).is_zero() else P1
    r = where(c, b, a)
    mx = ("max", a, b)
    return E(r.p, b_or(a.bad, b.bad), mx=mx)


def _lazy(f):
    """The choice between two values stays open (no solver query for it)."""

    def g(a: E, b: E) -> E:
        d = P.W.decider
        P.W.decider = None
        try:
            return f(a, b)
        finally:
            P.W.decider = d

    return g


def minimum(a: E, b: E) -> E:
    r = neg(maximum(neg(a), neg(b)))
    if r.inf:
        return r
    return E(r.p, r.bad, mx=("min", a, b))


maximum_lazy = _lazy(maximum)
minimum_lazy = _lazy(minimum)


def sign(a: E) -> E:
    if a.inf:
        return cst(a.inf)
    s = P.sign(a.p)
    if s is not None and abs(s) == 2:
        return E(P.const(1 if s > 0 else -1), a.bad)
    if s == 0:
        return E(ZERO, a.bad)
    pos = P.lift(lambda q: P.ind_lt(-q), a.p)
    ng = P.lift(P.ind_lt, a.p)
    return E(pos - ng, a.bad)
