"""
Term language of the symbolic executor.

Every scalar handled by the executor is a *generalised polynomial*

        sum_k  c_k * prod_i atom_i ^ e_ik * exp(P_k)

with rational coefficients c_k, rational exponents e_ik (negative and
fractional exponents are only produced when the solver or the syntactic sign
analysis shows that they are defined), and P_k again a generalised polynomial.
Atoms are interned:

  var    an input symbol, with the bounds the harness assumes for it
  poly   a multi-term polynomial q, only ever used with exponents < 0 or
         non-integer (1/q, sqrt(q), ...)
  named  a definition  n == q  (squared distances, and polynomials that would
         make a product exceed SIZE_LIMIT)
  ind    a 0/1 indicator  [q <= 0]
  log    log(q)
  fn     any other function symbol (erf, rounding to single precision, ...)

The representation is only a *carrier* for the terms: whether a condition holds
or two terms agree is decided by z3 (module solve).
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction
from functools import lru_cache

import mpmath

mpmath.mp.dps = 60

SIZE_LIMIT = 1500
REL = Fraction(1, 10**10)
"""Coefficients closer than this (relatively) are the same number: the code
under test computes in binary64, the executor in rationals."""


class Unsupported(Exception):
    """The executor has no semantics for what the code did (inconclusive)."""


# ---------------------------------------------------------------- numbers


@lru_cache(maxsize=200000)
def num(x) -> Fraction:
    """Python/torch number -> rational (shortest decimal / simple fraction)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported(f"non-finite constant {x}")
    if x == 0.0:
        return Fraction(0)
    f = Fraction(repr(x))
    if f.denominator > 10**6 and abs(x) > 1e-6:
        g = Fraction(x).limit_denominator(10000)
        if g != 0 and abs(g - Fraction(x)) <= abs(g) * Fraction(1, 4 * 10**15):
            return g
    return f


def shrink(c: Fraction) -> Fraction:
    """Bound the size of a coefficient (relative error < 1e-55)."""
    if c.numerator.bit_length() + c.denominator.bit_length() > 900:
        n, d = c.numerator, c.denominator
        s = max(n.bit_length(), d.bit_length()) - 220
        if s > 0:
            k = max(0, n.bit_length() - 220)
            l = max(0, d.bit_length() - 220)
            sh = min(k, l)
            n2, d2 = n >> sh, d >> sh
            # remaining size is genuine magnitude
            if n2 == 0 or d2 == 0:
                return c
            return Fraction(n2, d2)
    return c


def _mp(c: Fraction):
    return mpmath.mpf(c.numerator) / mpmath.mpf(c.denominator)


def _frac(m) -> Fraction:
    m = mpmath.mpf(m)
    if not mpmath.isfinite(m):
        raise Unsupported("non-finite numeric value")
    sign, man, exp, bc = m._mpf_
    man = int(man)
    v = Fraction(man) * (Fraction(2) ** exp if exp >= 0 else Fraction(1, 2**-exp))
    return -v if sign else v


def cpow(c: Fraction, e: Fraction) -> Fraction:
    """c**e for c > 0 (or integer e)."""
    if e == int(e):
        return shrink(c ** int(e))
    if c < 0:
        raise Unsupported("fractional power of a negative constant")
    if c == 0:
        return Fraction(0)
    if c == 1:
        return c
    d = e.denominator
    r = _iroot(c, d)
    if r is not None:
        return shrink(r**e.numerator)
    return _frac(mpmath.power(_mp(c), _mp(e)))


def _iroot(c: Fraction, d: int):
    def root(n):
        r = int(mpmath.nint(mpmath.root(mpmath.mpf(n), d))) if n else 0
        return r if r**d == n else None

    if c.numerator.bit_length() > 180 or c.denominator.bit_length() > 180:
        return None
    a, b = root(c.numerator), root(c.denominator)
    return None if a is None or b is None else Fraction(a, b)


def near(a: Fraction, b: Fraction) -> bool:
    return a == b or abs(a - b) <= REL * max(abs(a), abs(b))


# ---------------------------------------------------------------- atoms


class Atom:
    __slots__ = ("id", "kind", "data", "sign", "name")

    def __init__(self, id, kind, data, sign, name):
        self.id, self.kind, self.data, self.sign, self.name = (
            id,
            kind,
            data,
            sign,
            name,
        )

    # sign: 2 -> > 0, 1 -> >= 0, None -> unknown (an atom with sign<0 is not used)


class World:
    """All interned state of one symbolic run (atoms, assumptions, solver)."""

    def __init__(self):
        self.atoms: list[Atom] = []
        self.intern: dict = {}
        self.approx: dict = {}
        self.names: dict = {}  # structure -> [(poly, atom id)]
        self.assumptions: list = []  # list of (kind, Poly): 'le' p<=0, 'lt' p<0
        self.decider = None  # set by solve.Solver
        self.fork = None  # set by explore when forking mode is on
        self.branch = None  # decides an indicator atom (path forking)
        self.realise = None
        self.nbounds: dict = {}  # named atom -> (lo, hi) assumed
        self.flush = None  # dtype-range modelling: callable or None
        self.track_round = True
        self.nan_ops = 0
        self.rewrites: dict = {}  # atom id -> poly for its square
        self.eeq_linear = None
        self.expargs: dict = {}
        self.expadd: dict = {}

    def atom(self, kind, key, data, sign=None, name=None) -> Atom:
        k = (kind, key)
        a = self.intern.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, data, sign, name or f"{kind}{len(self.atoms)}")
            self.atoms.append(a)
            self.intern[k] = a
        return a

    def near_atom(self, kind, extra, poly: "Poly", sign_fn, name=None) -> Atom:
        """Intern an atom by a polynomial, identifying near-equal coefficients."""
        st = (kind, extra, poly.structure())
        lst = self.approx.setdefault(st, [])
        cs = poly.coeffs()
        for cs2, at in lst:
            if all(near(a, b) for a, b in zip(cs, cs2)):
                return at
        at = Atom(len(self.atoms), kind, (extra, poly), None, name or f"{kind}{len(self.atoms)}")
        at.sign = sign_fn(poly)
        self.atoms.append(at)
        lst.append((cs, at))
        return at


W = World()


def reset() -> World:
    global W
    W = World()
    return W


def world() -> World:
    return W


# ---------------------------------------------------------------- monomials
# mono: (powers, exparg)  powers: tuple[(atom_id, exponent)], exparg: Poly|None

ONE = ((), None)


def _red(e):
    return int(e) if isinstance(e, Fraction) and e.denominator == 1 else e


def mono_mul(a, b):
    if a is ONE or (not a[0] and a[1] is None):
        return b
    if b is ONE or (not b[0] and b[1] is None):
        return a
    pa, pb = a[0], b[0]
    if not pa:
        p = pb
    elif not pb:
        p = pa
    else:
        d = dict(pa)
        at = W.atoms
        for i, e in pb:
            if i in d:
                if at[i].kind == "ind":
                    continue
                s = _red(d[i] + e)
                if s == 0:
                    del d[i]
                else:
                    d[i] = s
            else:
                d[i] = e
        p = tuple(sorted(d.items()))
    if a[1] is None:
        return (p, b[1])
    if b[1] is None:
        return (p, a[1])
    k = (a[1], b[1])
    s = W.expadd.get(k, 0)
    if s == 0:
        s = canon_arg(a[1], b[1])
        W.expadd[k] = s
    return (p, s)


def canon_arg(x, y=None):
    """Exponent argument x (+ y), identified with a near-equal earlier one."""
    s = x if y is None else x + y
    if y is not None and not s.is_zero():
        # a cancellation up to rounding is a cancellation
        drop = [m for m, c in s.t.items() if m in x.t and m in y.t and abs(c) <= REL * abs(x.t[m])]
        if drop:
            s = Poly({m: c for m, c in s.t.items() if m not in drop})
    if s.is_zero():
        return None
    st = s.structure()
    fl = [float(c) for c in s.coeffs()]
    tab = W.expargs.setdefault(st, {})
    k = tuple(f"{v:.10e}" for v in fl)
    r = tab.get(k)
    if r is not None:
        return r
    alts = [{f"{v:.10e}", f"{v * (1 + 1e-13):.10e}", f"{v * (1 - 1e-13):.10e}"} for v in fl]
    n = 1
    for z in alts:
        n *= len(z)
    for k in itertools.product(*alts) if n <= 64 else [k]:
        tab.setdefault(k, s)
    return s


class Poly:
    __slots__ = ("t", "_h", "_st")

    def __init__(self, t: dict):
        self.t = t
        self._h = None
        self._st = None

    # -- basics
    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.t == o.t)

    def __len__(self):
        return len(self.t)

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const(self) -> Fraction:
        return self.t.get(ONE, Fraction(0)) if self.t else Fraction(0)

    def sorted(self):
        if self._st is None:
            self._st = tuple(sorted(self.t.items(), key=lambda kv: mono_key(kv[0])))
        return self._st

    def structure(self):
        return tuple(m for m, _ in self.sorted())

    def coeffs(self):
        return tuple(c for _, c in self.sorted())

    # -- ring operations
    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                s2 = s + c
                if s2 == 0 or abs(s2) <= abs(c) * _CANCEL:
                    del r[m]
                else:
                    r[m] = s2
        return renamed(Poly(r)) if W.names else Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c: Fraction):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: shrink(k * c) for m, k in self.t.items()})

    def mulmono(self, mono, c=Fraction(1)):
        if mono is ONE:
            return self.scale(c)
        return addup((mono_mul(m, mono), k * c) for m, k in self.t.items())

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        a, b = self, o
        if len(a.t) > 1 and len(b.t) > 1 and len(a.t) * len(b.t) > SIZE_LIMIT:
            if len(a.t) > 6:
                a = name_poly(a)
            if len(b.t) > 6:
                b = name_poly(b)
        if len(a.t) == 1:
            ((m, c),) = a.t.items()
            return b.mulmono(m, c)
        if len(b.t) == 1:
            ((m, c),) = b.t.items()
            return a.mulmono(m, c)
        r = addup(
            (mono_mul(m1, m2), c1 * c2)
            for m1, c1 in a.t.items()
            for m2, c2 in b.t.items()
        )
        return renamed(r) if W.names else r

    def has_ind(self):
        at = W.atoms
        for (p, e) in self.t:
            for i, _ in p:
                if at[i].kind == "ind":
                    return i
            if e is not None:
                k = e.has_ind()
                if k is not None:
                    return k
        return None

    def subst_ind(self, i, v: int):
        """Set indicator i to 0/1 at polynomial level (not inside other atoms)."""
        out = []
        for (p, e), c in self.t.items():
            hit = False
            for j, _ in p:
                if j == i:
                    hit = True
            if hit:
                if v == 0:
                    continue
                p = tuple(x for x in p if x[0] != i)
            if e is not None and e.has_ind() is not None:
                e2 = e.subst_ind(i, v)
                q = Poly({(p, None): c}) * pexp(e2)
                out.extend(q.t.items())
                continue
            out.append(((p, e) if (p or e is not None) else ONE, c))
        return addup(out)

    def __repr__(self):
        return show(self)


_CANCEL = Fraction(1, 10**40)


def mono_key(m):
    return (m[0] and tuple((i, float(e)) for i, e in m[0]) or (), 0 if m[1] is None else 1, "" if m[1] is None else _pkey(m[1]))


_PK: dict = {}


def _pkey(p: Poly):
    k = _PK.get(p)
    if k is None:
        k = repr([(mono_key(m), float(c)) for m, c in p.sorted()])
        _PK[p] = k
    return k


def addup(items) -> Poly:
    r: dict = {}
    for m, c in items:
        if not m[0] and m[1] is None:
            m = ONE
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s2 = s + c
            if s2 == 0 or abs(s2) <= abs(c) * _CANCEL:
                del r[m]
            else:
                r[m] = s2
    p = Poly({m: shrink(c) for m, c in r.items() if c != 0})
    return rewritten(p) if W.rewrites else p


def rewritten(p: Poly) -> Poly:
    """Apply  a^2 -> q  (q free of a) for the atoms in W.rewrites."""
    rw = W.rewrites
    for (pw, ex), c in p.t.items():
        for i, e in pw:
            if i in rw and isinstance(e, int) and e >= 2:
                break
        else:
            continue
        break
    else:
        return p
    r = ZERO
    plain = {}
    for (pw, ex), c in p.t.items():
        hit = [(i, e) for i, e in pw if i in rw and isinstance(e, int) and e >= 2]
        if not hit:
            plain[(pw, ex)] = c
            continue
        rest = []
        f = P1
        for i, e in pw:
            if (i, e) in hit:
                for _ in range(e // 2):
                    f = f * rw[i]
                if e % 2:
                    rest.append((i, 1))
            else:
                rest.append((i, e))
        m = (tuple(rest), ex)
        if not rest and ex is None:
            m = ONE
        r = r + f.mulmono(m, c)
    r = Poly(plain) + r
    return rewritten(r)


ZERO = Poly({})


def const(x) -> Poly:
    c = num(x)
    return Poly({ONE: c}) if c != 0 else ZERO


P1 = Poly({ONE: Fraction(1)})


def var_poly(a: Atom) -> Poly:
    return Poly({(((a.id, 1),), None): Fraction(1)})


def apow(a: Atom, e) -> Poly:
    return Poly({(((a.id, _red(e)),), None): Fraction(1)})


def ratio_to(p: Poly, q: Poly):
    """c such that p == c*q (near), else None."""
    if len(p.t) != len(q.t) or p.t.keys() != q.t.keys():
        return None
    r = None
    for m, c in p.t.items():
        k = c / q.t[m]
        if r is None:
            r = k
        elif not near(r, k):
            return None
    return r


def register_name(p: Poly, name: str, sign=None) -> Poly:
    """Give the polynomial p (e.g. a squared distance) a name."""
    at = W.atom("named", ("n", name), (None, p), sign, name)
    W.names.setdefault(frozenset(p.t.keys()), []).append((p, at))
    return var_poly(at)


def renamed(p: Poly) -> Poly:
    lst = W.names.get(frozenset(p.t.keys())) if len(p.t) > 1 else None
    if lst:
        for q, at in lst:
            r = ratio_to(p, q)
            if r is not None:
                return Poly({(((at.id, 1),), None): r})
    return p


def name_poly(p: Poly) -> Poly:
    """Wrap a large polynomial as a definition atom (size control)."""
    if len(p.t) == 1:
        return p
    items = p.sorted()
    c0 = items[0][1]
    q = p.scale(1 / c0)
    at = W.near_atom("named", "auto", q, sign_of)
    return Poly({(((at.id, 1),), None): c0})


# ---------------------------------------------------------------- signs


def mono_sign(m):
    """2: >0, 1: >=0, None unknown."""
    s = 2
    for i, e in m[0]:
        a = W.atoms[i]
        if a.sign is None:
            if isinstance(e, int) and e % 2 == 0:
                s = min(s, 2 if e < 0 else 1)
                continue
            return None
        s = min(s, a.sign if not (isinstance(e, int) and e < 0) else 2)
    return s


def sign_of(p: Poly):
    """Syntactic sign of a polynomial: 2 (>0), 1 (>=0), 0, -1, -2, None."""
    if p.is_zero():
        return 0
    if p.is_const():
        return 2 if p.const() > 0 else -2
    pos = neg = True
    strict = False
    for m, c in p.t.items():
        s = mono_sign(m)
        if s is None:
            return None
        if c > 0:
            neg = False
        else:
            pos = False
        if s == 2:
            strict = True
        if not pos and not neg:
            return None
    return (2 if strict else 1) * (1 if pos else -1)


def sign(p: Poly):
    """Sign, asking the solver when syntax does not settle it."""
    s = sign_of(p)
    if s is not None:
        return s
    lo, hi = bounds(p)
    if lo > 0:
        return 2
    if hi < 0:
        return -2
    if lo >= 0:
        return 1
    if hi <= 0:
        return -1
    d = W.decider
    if d is None:
        return None
    if d(("le", p)) is True:  # p <= 0
        return -2 if d(("lt", p)) is True else -1
    if d(("le", -p)) is True:
        return 2 if d(("lt", -p)) is True else 1
    return None


# ---------------------------------------------------------------- indicators


def _norm_le(p: Poly) -> Poly:
    """Normalise p for the condition p <= 0 (positive rescaling only)."""
    # remove common positive monomial factors
    common = None
    for (pw, e) in p.t:
        d = {i: x for i, x in pw if W.atoms[i].sign == 2}
        if common is None:
            common = d
        else:
            common = {i: min(x, d[i]) for i, x in common.items() if i in d}
            # factors missing on one side: exponent 0 vs x; keep only shared
    if common:
        common = {i: x for i, x in common.items() if x != 0}
    if common:
        inv = (tuple(sorted((i, _red(-x)) for i, x in common.items())), None)
        p = p.mulmono(inv)
    # two nonnegative monomials: c1*m1 <= c2*m2, compare a common power
    if len(p.t) == 2:
        (m1, c1), (m2, c2) = p.sorted()
        if c1 * c2 < 0 and mono_sign(m1) and mono_sign(m2):
            den = 1
            num_ = 0
            for pw in (m1[0], m2[0]):
                for _, e in pw:
                    den = math.lcm(den, Fraction(e).denominator)
            for pw in (m1[0], m2[0]):
                for _, e in pw:
                    num_ = math.gcd(num_, int(Fraction(e) * den))
            k = Fraction(den, num_) if num_ else Fraction(1)
            if m1[1] is not None or m2[1] is not None:
                k = Fraction(1)
            if k != 1:

                def up(m, c):
                    mm = (tuple((i, _red(Fraction(e) * k)) for i, e in m[0]), m[1])
                    s = 1 if c > 0 else -1
                    return mm, s * cpow(abs(c), k)

                (n1, d1), (n2, d2) = up(m1, c1), up(m2, c2)
                p = addup([(n1, d1), (n2, d2)])
    c0 = p.sorted()[0][1]
    return p.scale(1 / abs(c0))


def ind_le(p: Poly) -> Poly:
    """The 0/1 value of  p <= 0."""
    if p.is_const():
        return P1 if p.const() <= 0 else ZERO
    i = p.has_ind()
    if i is not None:
        return lift(ind_le, p)
    p = _norm_le(p)
    if p.is_const():
        return P1 if p.const() <= 0 else ZERO
    s = sign_of(p)
    if s is not None:
        if s <= 0:
            return P1
        if s == 2:
            return ZERO
    lo, hi = bounds(p)
    if hi <= 0:
        return P1
    if lo > 0:
        return ZERO
    if W.decider is not None:
        d = W.decider(("le", p))
        if d is True:
            return P1
        if d is False:
            return ZERO
    if W.fork is not None:
        return P1 if W.fork(("le", p)) else ZERO
    at = W.near_atom("ind", "le", p, lambda _: 1)
    return var_poly(at)


def b_not(a: Poly) -> Poly:
    return P1 - a


def ind_lt(p: Poly) -> Poly:
    return b_not(ind_le(-p))


def ind_eq(p: Poly) -> Poly:
    if p.is_const():
        return P1 if p.const() == 0 else ZERO
    a = ind_le(p)
    if a.is_zero():
        return ZERO
    return a * ind_le(-p)


def ite(c: Poly, a: Poly, b: Poly) -> Poly:
    if c.is_const():
        return a if c.const() != 0 else b
    if a == b:
        return a
    return b + c * (a - b)


def lift(f, *ps):
    """Apply f under every valuation of the indicators of the arguments."""
    for k, p in enumerate(ps):
        i = p.has_ind()
        if i is not None:
            a = var_poly(W.atoms[i])
            h = lift(f, *[q.subst_ind(i, 1) for q in ps])
            l = lift(f, *[q.subst_ind(i, 0) for q in ps])
            return ite(a, h, l)
    return f(*ps)


# ---------------------------------------------------------------- functions


def _drop_eps(p: Poly) -> Poly:
    """Drop a regulariser c next to a term known to be >= 1e10*|c|."""
    if ONE in p.t and len(p.t) > 1 and abs(p.t[ONE]) <= Fraction(1, 10**9):
        q = Poly({m: c for m, c in p.t.items() if m != ONE})
        d = W.decider
        lo, hi = bounds(q)
        k = float(abs(p.t[ONE])) * 1e10
        if lo >= k or hi <= -k:
            return renamed(q) if W.names else q
        if d is not None:
            e = const(abs(p.t[ONE]) * 10**10)
            if d(("le", e - q)) is True or d(("le", q + e)) is True:
                return renamed(q) if W.names else q
    return p


def _split(p: Poly):
    """p == c * mono * q with q normalised; returns (c, mono, q)."""
    items = p.sorted()
    common = None
    for (pw, e), _ in items:
        d = dict(pw)
        if common is None:
            common = d
        else:
            common = {
                i: min(x, d[i]) for i, x in common.items() if i in d
            }
    ex = items[0][0][1]
    if ex is not None and any(m[1] is None for m, _ in items):
        # keep a plain term as reference so that 1 + exp(..) stays as it is
        ex = None
    elif ex is not None:
        ex = min((m[1] for m, _ in items), key=_pkey)
    common = {i: x for i, x in (common or {}).items() if W.atoms[i].kind != "ind"}
    mono = (tuple(sorted(common.items())), ex)
    inv = (
        tuple(sorted((i, _red(-x)) for i, x in common.items())),
        None if ex is None else -ex,
    )
    q = p.mulmono(inv) if (common or ex is not None) else p
    c = q.sorted()[0][1]
    return c, (mono if (mono[0] or mono[1] is not None) else ONE), q.scale(1 / c)


def ppow(p: Poly, e) -> Poly:
    """p ** e for a rational constant e, where defined (definedness is the
    caller's business)."""
    e = _red(Fraction(e))
    if e == 0:
        return P1
    if e == 1:
        return p
    if p.is_zero():
        if e > 0:
            return ZERO
        raise Unsupported("0 ** negative")
    if p.has_ind() is not None:
        return lift(lambda q: ppow_total(q, e), p)
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        return _mono_pow(m, c, e)
    if isinstance(e, int) and e > 0:
        if e * math.log(len(p.t) + 1) > math.log(SIZE_LIMIT) + 1 or e > 6:
            n = name_poly(p)
            ((m, c),) = n.t.items()
            return _mono_pow(m, c, e)
        r = p
        for _ in range(e - 1):
            r = r * p
        return r
    p = _drop_eps(p)
    if len(p.t) == 1:
        return ppow(p, e)
    c, m, q = _split(p)
    if c < 0 and not isinstance(e, int):
        # q normalised by a negative coefficient: flip
        c, q = -c, -q
    if not isinstance(e, int):
        # monomial factor must be nonnegative to be split off
        if mono_sign(m) is None:
            q2 = q.mulmono(m)
            m = ONE
            q = q2
    at = W.near_atom("poly", None, q, lambda x: _pos_sign(x))
    return _mono_pow(m, c, e) * apow(at, e)


def _pos_sign(q):
    s = sign(q)
    return s if s in (1, 2) else None


def ppow_total(q: Poly, e):
    """ppow that returns 0 (junk, guarded by a nan flag) outside its domain."""
    if q.is_zero() and e < 0:
        return ZERO
    if q.is_const() and q.const() < 0 and not isinstance(_red(Fraction(e)), int):
        return ZERO
    return ppow(q, e)


def _mono_pow(m, c: Fraction, e) -> Poly:
    if m is ONE or (not m[0] and m[1] is None):
        return Poly({ONE: cpow(c, Fraction(e))})
    if isinstance(e, int):
        pw = []
        for i, x in m[0]:
            a = W.atoms[i]
            if a.kind == "ind" and e > 0:
                pw.append((i, x))
            else:
                pw.append((i, _red(x * e)))
        ex = None if m[1] is None else m[1].scale(Fraction(e))
        return Poly({(tuple(sorted(pw)), ex): cpow(c, Fraction(e))})
    # fractional exponent: every factor must be nonnegative on its own
    bad = [
        (i, x) for i, x in m[0] if W.atoms[i].sign is None
    ]
    if not bad and c > 0:
        pw = tuple((i, _red(Fraction(x) * e)) for i, x in m[0])
        ex = None if m[1] is None else m[1].scale(Fraction(e))
        return Poly({(pw, ex): cpow(c, Fraction(e))})
    good = tuple((i, x) for i, x in m[0] if W.atoms[i].sign is not None)
    rest = tuple((i, x) for i, x in m[0] if W.atoms[i].sign is None)
    even = tuple(
        (i, x) for i, x in rest if isinstance(x, int) and x % 2 == 0
    )
    odd = tuple(t for t in rest if t not in even)
    if not odd and c > 0:
        r = _mono_pow((good, m[1]), c, e)
        for i, x in even:  # (x^2)^(e) = |x|^(2e)
            r = r * ppow(pabs(var_poly(W.atoms[i])), Fraction(x) * e)
        return r
    q = Poly({(tuple(sorted(odd)), None): Fraction(1 if c > 0 else -1)})
    at = W.near_atom("poly", "m", q, _pos_sign)
    r = _mono_pow((good, m[1]), abs(c), e) if (good or m[1] is not None) else Poly({ONE: cpow(abs(c), Fraction(e))})
    for i, x in even:
        r = r * ppow(pabs(var_poly(W.atoms[i])), Fraction(x) * e)
    return r * apow(at, e)


def pinv(p: Poly) -> Poly:
    return ppow(p, -1)


def psqrt(p: Poly) -> Poly:
    return ppow(p, Fraction(1, 2))


def pabs(p: Poly) -> Poly:
    if p.has_ind() is not None:
        return lift(pabs, p)
    s = sign(p)
    if s is not None:
        return p if s >= 0 else -p
    if len(p.t) == 1:
        # |c*m| = |c| * prod |atom|^e
        ((m, c),) = p.t.items()
        if len(m[0]) > 1 or abs(c) != 1 or m[1] is not None:
            r = Poly({((), m[1]) if m[1] is not None else ONE: abs(c)})
            for i, e in m[0]:
                a = W.atoms[i]
                if a.sign is not None:
                    r = r * apow(a, e)
                elif isinstance(e, int) and e % 2 == 0:
                    r = r * apow(a, e)
                else:
                    r = r * ppow(pabs(var_poly(a)), e)
            return r
    # canonical orientation
    q = p if p.sorted()[0][1] > 0 else -p
    if W.fork is not None:
        return -q if W.fork(("le", q)) else q
    at = W.near_atom("fn", "abs", q, lambda _: 1)
    return var_poly(at)


def pexp(p: Poly) -> Poly:
    if p.is_zero():
        return P1
    if p.has_ind() is not None:
        return lift(pexp, p)
    c = Fraction(1)
    t = dict(p.t)
    k = t.pop(ONE, None)
    if k is not None:
        c = exp_const(k)
    r = Poly({ONE: c})
    # rational multiples of a log come back out
    for m in list(t):
        if m[1] is None and len(m[0]) == 1 and m[0][0][1] == 1:
            a = W.atoms[m[0][0][0]]
            if a.kind == "log":
                q = a.data[1]
                r = r * ppow(q, t.pop(m))
    if not t:
        return r
    arg = canon_arg(Poly(t))
    return r * Poly({((), arg): Fraction(1)})


@lru_cache(maxsize=100000)
def exp_const(k: Fraction) -> Fraction:
    if k < -(10**5):
        return Fraction(0)  # underflows in every floating-point format
    if k > 10**5:
        raise Unsupported("exp of a huge constant")
    return _frac(mpmath.exp(_mp(k)))


def plog(p: Poly) -> Poly:
    if p.has_ind() is not None:
        return lift(plog, p)
    if p.is_const():
        if p.const() <= 0:
            raise Unsupported("log of nonpositive constant")
        return Poly({ONE: _frac(mpmath.log(_mp(p.const())))}) if p.const() != 1 else ZERO
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if c > 0 and all(W.atoms[i].sign == 2 for i, _ in m[0]):
            r = const(0) if c == 1 else Poly({ONE: _frac(mpmath.log(_mp(c)))})
            for i, e in m[0]:
                a = W.atoms[i]
                if a.kind == "poly":
                    q = a.data[1]
                else:
                    q = var_poly(a)
                at = W.near_atom("log", None, q, lambda _: None)
                r = r + Poly({(((at.id, 1),), None): Fraction(e)})
            if m[1] is not None:
                r = r + m[1]
            return r
    else:
        c, m, q = _split(p)
        if c > 0 and (m is not ONE or c != 1) and mono_sign(m) == 2 and sign(q) == 2:
            return plog(Poly({m: c})) + plog(q)
    at = W.near_atom("log", None, p, lambda _: None)
    return var_poly(at)


def ppow_sym(b: Poly, e: Poly) -> Poly:
    """b ** e with symbolic exponent, b > 0 assumed (caller checks)."""
    if e.is_const():
        return ppow(b, e.const())
    if b.is_const() and b.const() == 1:
        return P1
    return pexp(e * plog(b))


def pfn(name: str, p: Poly) -> Poly:
    if p.has_ind() is not None:
        return lift(lambda q: pfn(name, q), p)
    if p.is_const():
        v = getattr(mpmath, name)(_mp(p.const()))
        return Poly({ONE: _frac(v)}) if v != 0 else ZERO
    odd = name in ("erf", "tanh", "sin", "sinh", "atan", "asinh")
    if odd and p.sorted()[0][1] < 0:
        return -pfn(name, -p)
    if name in ("cos", "cosh") and p.sorted()[0][1] < 0:
        p = -p
    at = W.near_atom("fn", name, p, lambda q: _fn_sign(name, q))
    return var_poly(at)


def _fn_sign(name, q):
    if name in ("erf", "tanh", "atan", "sinh", "asinh"):
        s = sign(q)
        return s if s in (1, 2) else None
    if name in ("erfc", "cosh"):
        return 2
    return None


def pround(kind: str, p: Poly) -> Poly:
    """Rounding to a narrower float type (uninterpreted, except on constants)."""
    if p.is_const():
        import numpy as np

        dt = {"f32": np.float32, "f16": np.float16}.get(kind)
        if dt is None:
            raise Unsupported(f"rounding {kind}")
        return const(Fraction(float(dt(float(p.const())))))
    if all(c.denominator == 1 and abs(c) <= 1024 for c in p.t.values()) and all(
        W.atoms[i].kind == "ind" for m in p.t for i, _ in m[0]
    ) and all(m[1] is None for m in p.t):
        return p  # small integers
    at = W.near_atom("fn", f"round_{kind}", p, lambda q: (1 if (sign_of(q) or 0) > 0 else None))
    return var_poly(at)


# ---------------------------------------------------------------- derivative


def diff(p: Poly, a: Atom, cache=None) -> Poly:
    """d p / d a  (indicators are piecewise constant)."""
    if cache is None:
        cache = {}
    r = ZERO
    for (pw, ex), c in p.t.items():
        base = Poly({(pw, ex): c})
        for i, e in pw:
            da = datom(W.atoms[i], a, cache)
            if da.is_zero():
                continue
            r = r + base.scale(Fraction(e)) * apow(W.atoms[i], -1) * da
        if ex is not None:
            de = diff(ex, a, cache)
            if not de.is_zero():
                r = r + base * de
    return r


def datom(at: Atom, a: Atom, cache) -> Poly:
    k = (at.id, a.id)
    if k in cache:
        return cache[k]
    if at is a:
        r = P1
    elif at.kind in ("var", "ind"):
        r = ZERO
    elif at.kind in ("poly", "named"):
        r = diff(at.data[1], a, cache)
    elif at.kind == "log":
        q = at.data[1]
        d = diff(q, a, cache)
        r = ZERO if d.is_zero() else d * pinv(q)
    elif at.kind == "fn":
        name, q = at.data
        d = diff(q, a, cache)
        if d.is_zero():
            r = ZERO
        elif name == "erf":
            r = d * pexp(-(q * q)).scale(_frac(2 / mpmath.sqrt(mpmath.pi)))
        elif name == "abs":
            r = d * ite(ind_le(q), const(-1), P1)
        else:
            raise Unsupported(f"derivative of {name}")
    else:
        raise Unsupported(at.kind)
    cache[k] = r
    return r


def subst(p: Poly, mp: dict, cache=None) -> Poly:
    """Substitute atoms (id -> Poly), rebuilding derived atoms."""
    if cache is None:
        cache = {}
    r = ZERO
    for (pw, ex), c in p.t.items():
        t = Poly({ONE: c})
        for i, e in pw:
            t = t * ppow(subst_atom(W.atoms[i], mp, cache), e) if W.atoms[i].kind != "ind" else t * subst_atom(W.atoms[i], mp, cache)
        if ex is not None:
            t = t * pexp(subst(ex, mp, cache))
        r = r + t
    return r


def subst_atom(at: Atom, mp, cache):
    if at.id in mp:
        return mp[at.id]
    if at.id in cache:
        return cache[at.id]
    if at.kind == "var":
        r = var_poly(at)
    elif at.kind in ("poly", "named"):
        q = at.data[1]
        q2 = subst(q, mp, cache)
        r = var_poly(at) if (q2 == q and at.kind == "named") else q2
    elif at.kind == "ind":
        r = ind_le(subst(at.data[1], mp, cache))
    elif at.kind == "log":
        r = plog(subst(at.data[1], mp, cache))
    elif at.kind == "fn":
        name, q = at.data
        q2 = subst(q, mp, cache)
        if name == "abs":
            r = pabs(q2)
        elif name.startswith("round_"):
            r = pround(name[6:], q2)
        else:
            r = pfn(name, q2)
    else:
        raise Unsupported(at.kind)
    cache[at.id] = r
    return r


def support(p: Poly, acc=None, opaque=False) -> set:
    """Ids of all atoms reachable from p (opaque: not through names)."""
    if acc is None:
        acc = set()
    stack = [p]
    while stack:
        q = stack.pop()
        for (pw, ex) in q.t:
            for i, _ in pw:
                if i not in acc:
                    acc.add(i)
                    a = W.atoms[i]
                    if a.kind != "var" and not (
                        opaque and a.kind == "named" and (a.data[0] is None or len(a.data[1].t) > 6)
                    ):
                        stack.append(a.data[1])
            if ex is not None:
                stack.append(ex)
    return acc


# ---------------------------------------------------------------- evaluation


def evaluate(p: Poly, env: dict, cache=None) -> mpmath.mpf:
    """Numeric value at an assignment of the variables (by name)."""
    if cache is None:
        cache = {}
    s = mpmath.mpf(0)
    for (pw, ex), c in p.t.items():
        t = _mp(c)
        zero = False
        for i, e in pw:
            v = eval_atom(W.atoms[i], env, cache)
            if W.atoms[i].kind == "ind":
                if v == 0:
                    zero = True
                    break
                continue
            t *= mpmath.power(v, _mp(Fraction(e)))
        if zero:
            continue
        if ex is not None:
            t *= mpmath.exp(evaluate(ex, env, cache))
        s += t
    return s


def eval_atom(a: Atom, env, cache):
    if a.id in cache:
        return cache[a.id]
    if a.kind == "var":
        v = _mp(num(env[a.name]))
    elif a.kind in ("poly", "named"):
        v = evaluate(a.data[1], env, cache)
    elif a.kind == "ind":
        v = mpmath.mpf(1 if evaluate(a.data[1], env, cache) <= 0 else 0)
    elif a.kind == "log":
        v = mpmath.log(evaluate(a.data[1], env, cache))
    else:
        name, q = a.data
        x = evaluate(q, env, cache)
        if name == "abs":
            v = abs(x)
        elif name.startswith("round_"):
            import numpy as np

            v = mpmath.mpf(float((np.float32 if name == "round_f32" else np.float16)(float(x))))
        else:
            v = getattr(mpmath, name)(x)
    cache[a.id] = v
    return v


def show(p: Poly, limit=8) -> str:
    if p.is_zero():
        return "0"
    out = []
    for (pw, ex), c in list(p.sorted())[:limit]:
        s = []
        for i, e in pw:
            a = W.atoms[i]
            n = a.name
            if a.kind == "ind":
                n = f"[{show(a.data[1], 4)} <= 0]"
            elif a.kind == "poly":
                n = f"({show(a.data[1], 4)})"
            elif a.kind in ("log", "fn"):
                n = f"{a.data[0] or 'log'}({show(a.data[1], 4)})"
            s.append(n if e == 1 else f"{n}^{e}")
        if ex is not None:
            s.append(f"exp({show(ex, 4)})")
        cf = f"{float(c):.6g}"
        out.append("*".join([cf] + s) if s else cf)
    if len(p.t) > limit:
        out.append(f"... ({len(p.t)} terms)")
    return " + ".join(out)


# ---------------------------------------------------------------- intervals

_INF = float("inf")


def bounds(p: Poly, cache=None):
    """Interval enclosure of p from the bounds of its inputs (presolve)."""
    if cache is None:
        cache = {}
    lo = hi = 0.0
    for (pw, ex), c in p.t.items():
        l, h = 1.0, 1.0
        for i, e in pw:
            a, b = abounds(W.atoms[i], cache)
            x, y = _ipow(a, b, e)
            l, h = _imul(l, h, x, y)
        if ex is not None:
            a, b = bounds(ex, cache)
            l, h = _imul(l, h, _exp(a), _exp(b))
        if ex is not None and max(h, -l) * max(1.0, abs(_flt(c))) > 1e15:
            l, h = _ratio_bound(pw, ex, l, h, cache)
        # m / (... + k m + ...) <= 1/k for a sum of positive terms
        cap = None
        for i, e in pw:
            if e == -1 and W.atoms[i].kind == "poly":
                q = W.atoms[i].data[1]
                k = q.t.get((tuple(x for x in pw if x[0] != i), ex))
                if k is not None and k > 0 and all(cc > 0 and mono_sign(mm) for mm, cc in q.t.items()):
                    cap = _flt(c / k)
        try:
            f = float(c)
        except OverflowError:
            f = _INF if c > 0 else -_INF
        l, h = _imul(l, h, f, f)
        if cap is not None:
            l, h = (max(l, 0.0), min(h, cap)) if c > 0 else (max(l, cap), min(h, 0.0))
        lo += l
        hi += h
    if lo != lo or hi != hi:
        return -_INF, _INF
    m = 1e-12
    return lo - abs(lo) * m, hi + abs(hi) * m


def _ratio_bound(pw, ex, l, h, cache):
    """Bound of  u exp(x) / D**e  (e = 1, 2) for a sum D of terms k exp(y).

    D >= k exp(y) for every term, so exp(x) / D**e <= exp(x - y - ...) / k..."""
    for i, e in pw:
        if e not in (-1, -2) or W.atoms[i].kind != "poly":
            continue
        q = W.atoms[i].data[1]
        if len(q.t) > 40 or not all(c > 0 and not m[0] for m, c in q.t.items()):
            continue
        best = _INF
        terms = [(m[1], c) for m, c in q.t.items()]

        def up(x, k):
            x, k = (x, k) if x is not None else (ZERO, k)
            if x.is_const():
                v = _flt(x.const())
            else:
                v = bounds(x, cache)[1]
            return _exp(v) / _flt(k) if _flt(k) > 0 else _INF

        if e == -1:
            for y, k in terms:
                best = min(best, up(ex if y is None else ex - y, k))
        else:
            for a, (y, k) in enumerate(terms):
                x1 = ex if y is None else ex - y
                for y2, k2 in terms[a:]:
                    best = min(best, up(x1 if y2 is None else x1 - y2, k * k2))
        if best == _INF:
            continue
        ul, uh = 1.0, 1.0
        for j, f in pw:
            if j != i:
                ul, uh = _imul(ul, uh, *_ipow(*abounds(W.atoms[j], cache), f))
        ul, uh = _imul(ul, uh, 0.0, best * (1 + 1e-9))
        l, h = max(l, ul), min(h, uh)
    return l, h


def _flt(c):
    try:
        return float(c)
    except OverflowError:
        return _INF if c > 0 else -_INF


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return _INF


def _imul(a, b, c, d):
    v = []
    for x in (a, b):
        for y in (c, d):
            z = 0.0 if (x == 0 or y == 0) else x * y
            v.append(z)
    if any(x != x for x in v):
        return -_INF, _INF
    return min(v), max(v)


def _ipow(a, b, e):
    try:
        if isinstance(e, int):
            if e > 0:
                if e % 2 == 0:
                    m = 0.0 if a <= 0 <= b else min(abs(a), abs(b))
                    return _fp(m, e), _fp(max(abs(a), abs(b)), e)
                return _fp(a, e), _fp(b, e)
            if a > 0 or b < 0:
                x, y = _ipow(a, b, -e)
                return 1 / y if y else -_INF, 1 / x if x else _INF
            if a >= 0:
                x, y = _ipow(a, b, -e)
                return (1 / y if y else 0.0), _INF
            return -_INF, _INF
        f = float(e)
        a = max(a, 0.0)
        b = max(b, 0.0)
        if f > 0:
            return _fp(a, f), _fp(b, f)
        return (_fp(b, f) if b > 0 else 0.0), (_fp(a, f) if a > 0 else _INF)
    except (OverflowError, ZeroDivisionError):
        return -_INF, _INF


def _fp(x, e):
    try:
        if x in (_INF,):
            return _INF
        if x == -_INF:
            return -_INF if isinstance(e, int) and e % 2 else _INF
        return x**e
    except OverflowError:
        return _INF if x > 0 or e % 2 == 0 else -_INF


def abounds(a: Atom, cache):
    r = cache.get(a.id)
    if r is not None:
        return r
    if a.kind == "var":
        lo, hi = a.data if a.data else (None, None)
        r = (-_INF if lo is None else float(lo), _INF if hi is None else float(hi))
    elif a.kind in ("named", "poly"):
        r = bounds(a.data[1], cache)
        nb = W.nbounds.get(a.id)
        if nb:
            r = (max(r[0], nb[0]), min(r[1], nb[1]))
    elif a.kind == "ind":
        r = (0.0, 1.0)
    elif a.kind == "log":
        x, y = bounds(a.data[1], cache)
        r = (math.log(x) if x > 0 and x < _INF else -_INF, math.log(y) if 0 < y < _INF else _INF)
        r = (r[0] - abs(r[0]) * 1e-12, r[1] + abs(r[1]) * 1e-12)
    else:
        nm, q = a.data
        x, y = bounds(q, cache)
        if nm == "abs":
            m = 0.0 if x <= 0 <= y else min(abs(x), abs(y))
            r = (m, max(abs(x), abs(y)))
        elif nm == "erf":
            r = (math.erf(x) - 1e-12, math.erf(y) + 1e-12)
        elif nm.startswith("round_"):
            r = (x - abs(x) * 1e-3 - 1e-3, y + abs(y) * 1e-3 + 1e-3) if nm == "round_f16" else (x - abs(x) * 1e-7 - 1e-40, y + abs(y) * 1e-7 + 1e-40)
        else:
            r = (-_INF, _INF) if nm not in ("sin", "cos", "tanh") else (-1.0, 1.0)
    if a.sign in (1, 2):
        r = (max(r[0], 0.0), r[1])
    cache[a.id] = r
    return r
