"""
Harness context: one property harness, two executions.

symbolic  inputs are symbols; the code under test runs on symbolic tensors, the
          oracle on terms; each check becomes a solver query.
concrete  inputs are numbers (a counterexample); the same harness runs the
          unmodified code on ordinary tensors and the oracle in high precision.
"""

from __future__ import annotations

import json
import math
import time
import traceback
from fractions import Fraction

import mpmath
import numpy as np
import torch

from . import elem as X
from . import poly as P
from . import solve as Z
from . import symtensor as S
from .elem import E
from .poly import P1, ZERO, Poly, Unsupported

DT = torch.float64
CON_RTOL = 1e-7


class Infeasible(Exception):
    """The path condition is contradictory."""


class Inconclusive(Exception):
    pass


class Broken(Exception):
    """A check failed (symbolic run): candidates must be replayed."""

    def __init__(self, label, finder):
        self.label, self.finder = label, finder


# ------------------------------------------------------------------ scalars


class Sc:
    """Scalar of the oracle in a symbolic run."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e if isinstance(e, E) else X.cst(e)

    @staticmethod
    def of(x):
        return x if isinstance(x, Sc) else Sc(num_elem(x))

    def __add__(self, o):
        return Sc(X.add(self.e, Sc.of(o).e))

    __radd__ = __add__

    def __sub__(self, o):
        return Sc(X.sub(self.e, Sc.of(o).e))

    def __rsub__(self, o):
        return Sc(X.sub(Sc.of(o).e, self.e))

    def __mul__(self, o):
        return Sc(X.mul(self.e, Sc.of(o).e))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Sc(X.div(self.e, Sc.of(o).e))

    def __rtruediv__(self, o):
        return Sc(X.div(Sc.of(o).e, self.e))

    def __pow__(self, o):
        return Sc(X.power(self.e, Sc.of(o).e))

    def __rpow__(self, o):
        return Sc(X.power(Sc.of(o).e, self.e))

    def __neg__(self):
        return Sc(X.neg(self.e))

    def __repr__(self):
        return repr(self.e)


def num_elem(x):
    if isinstance(x, mpmath.mpf):
        return E(Poly({P.ONE: P._frac(x)})) if x != 0 else X.E0
    if isinstance(x, Fraction):
        return E(P.const(x))
    if isinstance(x, (bool, int, float)):
        return S.c_elem(x)
    if isinstance(x, E):
        return x
    if isinstance(x, torch.Tensor):
        return S.A(x).reshape(-1)[0]
    if isinstance(x, np.generic):
        return S.c_elem(x.item())
    raise TypeError(type(x))


class Cond:
    """Truth value of the oracle (symbolic run): a 0/1 term."""

    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __and__(self, o):
        return Cond(self.p * o.p)

    def __or__(self, o):
        return Cond(X.b_or(self.p, o.p))

    def __invert__(self):
        return Cond(P1 - self.p)


class CBool:
    """Truth value in a concrete run."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = bool(v)

    def __and__(self, o):
        return CBool(self.v and o.v)

    def __or__(self, o):
        return CBool(self.v or o.v)

    def __invert__(self):
        return CBool(not self.v)


# ------------------------------------------------------------------ contexts


class Base:
    """Operations available to harnesses in both modes."""

    symbolic = False

    def __init__(self):
        self.notes: list[str] = []
        self.labels: list[str] = []

    def reals(self, prefix, n, lo=None, hi=None):
        return [self.real(f"{prefix}{i}", lo, hi) for i in range(n)]

    def sum(self, xs):
        xs = list(xs)
        if not xs:
            return self.lit(0)
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return r


class SymCtx(Base):
    symbolic = True

    def __init__(self, seed=1, decisions=None, timeout_ms=400):
        super().__init__()
        self.W = P.reset()
        self.solver = Z.Solver(timeout_ms, seed)
        self.W.decider = self.solver.decider
        self.W.branch = self._branch
        self.decisions = decisions if decisions is not None else []
        self.pos = 0
        self.new_alts = []
        self.bounds = {}
        self.obligations = 0
        self.memo_none_epoch = 0

    # -- inputs
    def real(self, name, lo=None, hi=None):
        lo = None if lo is None else P.num(lo)
        hi = None if hi is None else P.num(hi)
        sign = None
        if lo is not None:
            sign = 2 if lo > 0 else (1 if lo >= 0 else None)
        a = self.W.atom("var", name, (lo, hi), sign, name)
        self.bounds[name] = (lo, hi)
        return Sc(E(P.var_poly(a)))

    def lit(self, x):
        return Sc.of(x)

    def tensor(self, xs, dtype=DT, requires_grad=False, plain=False):
        """Nested lists of scalars / numbers -> tensor.

        plain: constants stay ordinary tensors (large systems: what depends
        on them alone is computed in floating point)."""
        arr = np.array(xs, dtype=object)
        flat = [Sc.of(v).e for v in arr.reshape(-1)]
        if all(e.is_const() for e in flat):
            t = torch.tensor([X.value(e) for e in flat], dtype=DT).reshape(arr.shape).to(dtype)
            if plain:
                self.W.plain = True
                return t
            t = S.SymTensor(S.const_arr(t), dtype)
        else:
            t = S.SymTensor(S.objarr(arr.shape, flat), dtype)
        if requires_grad:
            t.requires_grad_(True)
        return t

    def positions(self, name, n, box=6.0, rmin=0.5, coords=None, rmax=None):
        """n x 3 symbolic coordinates with pairwise distances >= rmin.

        coords: optional pattern; None entries are symbolic, numbers fixed."""
        pts = []
        for i in range(n):
            row = []
            for k, ax in enumerate("xyz"):
                c = None if coords is None else coords[i][k]
                row.append(self.real(f"{name}{i}{ax}", -box, box) if c is None else self.lit(c))
            pts.append(row)
        self.name_distances(pts, name, rmin, rmax)
        return pts

    def name_distances(self, pts, name, rmin=0.5, rmax=None):
        n = len(pts)
        r2m = {}
        for i in range(n):
            for j in range(i + 1, n):
                p = ZERO
                for k in range(3):
                    d = (pts[i][k] - pts[j][k]).e.p
                    p = p + d * d
                if p.is_const():
                    r2m[i, j] = Sc(E(p))
                    continue
                if len(p.t) > 1:
                    nm = P.register_name(p, f"r2_{name}_{i}_{j}", 2)
                    at = P.W.intern[("named", ("n", f"r2_{name}_{i}_{j}"))]
                    P.W.nbounds[at.id] = (float(rmin) ** 2, float("inf") if rmax is None else float(rmax) ** 2)
                else:
                    nm = p
                lo = P.const(Fraction(rmin) ** 2)
                self.solver.assumptions.append(("le", lo - nm))
                if rmax is not None:
                    self.solver.assumptions.append(("le", nm - P.const(Fraction(rmax) ** 2)))
                r2m[i, j] = Sc(E(nm))
        self.r2map = getattr(self, "r2map", {})
        self.r2map[name] = r2m

    def dist2(self, a, b):
        p = ZERO
        for k in range(3):
            d = (Sc.of(a[k]) - Sc.of(b[k])).e.p
            p = p + d * d
        return Sc(E(p))

    def angle(self, name):
        """(cos, sin) of an arbitrary angle."""
        s = self.real(f"{name}_s", -1, 1)
        c = self.real(f"{name}_c", -1, 1)
        ((mc, _),) = c.e.p.t.items()
        ((ms, _),) = s.e.p.t.items()
        self.W.rewrites[mc[0][0][0]] = P1 - s.e.p * s.e.p
        # the model search sees the unreduced relation
        sq = lambda m: Poly({(((m[0][0][0], 2),), None): Fraction(1)})  # noqa: E731
        self.solver.assumptions.append(("eq", sq(mc) + sq(ms) - P1))
        self.angles = getattr(self, "angles", []) + [name]
        return c, s

    def flush(self, lo=-746, denormal=-700):
        """Model underflow of exponentials to zero from here on.

        exp(x) with x <= lo is 0; the denormal range (lo, denormal), where
        binary64 loses relative precision, is assumed not to be hit."""
        seen = set()

        def fl(e):
            if e.p.has_ind() is not None:
                return X._lift_elem(lambda p: fl(E(p)), e.p, e.bad)
            if len(e.p.t) != 1:
                return e
            ((m, c),) = e.p.t.items()
            if m[1] is None or m[0] or c <= 0:
                return e
            arg = m[1] + P.const(P._frac(mpmath.log(P._mp(c))))
            a, b = P.bounds(arg)
            if a > denormal:
                return e
            key = arg.key()
            if key not in seen:
                seen.add(key)
                self.solver.assumptions.append(
                    ("or", [("le", arg - P.const(lo)), ("le", P.const(denormal) - arg)])
                )
                self.solver.memo = {k: v for k, v in self.solver.memo.items() if v is not None}
            z = P.ind_le(arg - P.const(lo))
            return X.where(z, X.E0, e)

        self.W.flush = fl

    def overflow(self, fmax=3.4028e38):
        """Powers and exponentials that exceed fmax for every input are inf."""

        def fl(e):
            if e.p.has_ind() is not None or not e.bad.is_zero():
                return e
            return X.PINF if P.bounds(e.p)[0] > fmax else e

        self.W.flush = fl

    def eeq_linear(self, w, k=0.0):
        """Charges of the EEQ stub get a part linear in positions and charge."""
        self.W.eeq_linear = (w, k)

    def eeq(self, numbers, positions, charge, cutoff):
        from . import stubs

        return stubs.charges(numbers, positions, charge, cutoff)

    # -- functions for oracles
    def sqrt(self, x):
        return Sc(X.sqrt(Sc.of(x).e))

    def exp(self, x):
        return Sc(X.exp(Sc.of(x).e))

    def log(self, x):
        return Sc(X.log(Sc.of(x).e))

    def abs(self, x):
        return Sc(X.abs_(Sc.of(x).e))

    def erf(self, x):
        return Sc(X.fn("erf")(Sc.of(x).e))

    def le(self, a, b):
        return Cond(X.le(Sc.of(a).e, Sc.of(b).e).p)

    def lt(self, a, b):
        return Cond(X.lt(Sc.of(a).e, Sc.of(b).e).p)

    def eq(self, a, b):
        return Cond(X.eq(Sc.of(a).e, Sc.of(b).e).p)

    def true(self, v=True):
        return Cond(P1 if v else ZERO)

    def ite(self, c, a, b):
        return Sc(X.where(c.p, Sc.of(a).e, Sc.of(b).e))

    def diff(self, x, v):
        """Exact derivative of a term by an input."""
        ((m, _),) = v.e.p.t.items()
        ((i, e),) = m[0]
        return Sc(E(P.diff(Sc.of(x).e.p, P.W.atoms[i])))

    def entries(self, t):
        """Tensor -> flat list of scalars."""
        return [Sc(e) for e in S.elems(t)]

    # -- assumptions and checks
    def assume(self, cond):
        c = to_cond(cond)
        self.solver.assumptions.append(c)
        self.solver.memo = {k: v for k, v in self.solver.memo.items() if v is not None}

    def assume_le(self, a, b):
        """a <= b, as a fact about the monomials of the two terms."""
        self.solver.add_fact(Sc.of(a).e.p - Sc.of(b).e.p)

    def decide(self, cond):
        """Python truth of an oracle condition (forks the path)."""
        return S.decide_bool(cond.p)

    def _branch(self, atom):
        r = self.solver.entails(("ind", atom, 1))
        if r is not None:
            return r
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = True
            self.decisions.append(True)
            self.new_alts.append(self.pos)
        self.pos += 1
        self.solver.path.append(("ind", atom, 1 if v else 0))
        self.solver.memo = {k: x for k, x in self.solver.memo.items() if x is not None}
        return v

    def fork_mode(self):
        """Decide every symbolic comparison by path forking from here on."""

        def fork(cond):
            at = P.W.near_atom("ind", "le", cond[1], lambda _: 1)
            return self._branch(at)

        self.W.fork = fork

    def check_eq(self, label, got, want, tol=None, allow_bad=False, atol=1e-19, rtol=None):
        self.labels.append(label)
        ga = to_arr(got)
        wa = to_arr(want)
        if ga.shape != wa.shape:
            raise Broken(f"{label}: shape {ga.shape} instead of {wa.shape}", candidates_any(self))
        self.obligations += ga.size
        pairs = []
        for g, w in zip(ga.reshape(-1), wa.reshape(-1)):
            if g.inf or w.inf:
                if g.inf != w.inf:
                    raise Broken(f"{label}: infinity", candidates_any(self))
                continue
            bad = g.bad
            if not w.bad.is_zero():
                # the oracle itself is undefined there: both must be
                bad = g.bad * (P1 - w.bad) + w.bad * (P1 - g.bad)
            if not bad.is_zero() and not allow_bad:
                self.prove_zero01(f"{label}: NaN/inf", bad)
            pairs.append((g.p, w.p))
        # smallest difference a replay would report
        self.seen_at = max(1e-12, 10 * (CON_RTOL if rtol is None else rtol))
        self.prove_equal(label, pairs, Z.TOL if tol is None else Fraction(tol))

    def prove_zero01(self, label, b: Poly):
        """The 0/1 term b is 0 under the assumptions."""
        cond = ("lt", -b)  # b > 0
        r = self.solver.query([cond], "finite", 20000, all_=True)
        if str(r) == "unsat":
            return
        raise Broken(label, lambda k: self.candidates([cond], k))

    def prove_equal(self, label, pairs, tol):
        open_ = [(a, b) for a, b in pairs]
        if not open_:
            return
        if Z.lra_equal(open_, tol):
            return
        for a, b in open_:
            if a == b or Z.lra_equal([(a, b)], tol):
                continue
            self.prove_pair(label, a, b, tol)

    def prove_pair(self, label, a, b, tol):
        r = Z.equal_by_clearing(a, b, tol)
        if r is True:
            return
        big = r is None
        # split on the indicators
        inds = [i for i in P.support(a - b) if P.W.atoms[i].kind == "ind"]
        if 0 < len(inds) <= 10 and not big:
            if self.prove_by_cases(a, b, tol, inds):
                return
        d = a - b
        scale = None

        def finder(k):
            return self.candidates_diff(a, b, k)

        # nonlinear real arithmetic on the difference
        if len(d.t) <= 400:
            t = self.tol_poly(a, b, tol)
            r = self.solver.query([("or", [("lt", t - d), ("lt", t + d)])], "nra", 8000, all_=True)
            if str(r) == "unsat":
                return
        raise Broken(label, finder)

    def tol_poly(self, a, b, tol):
        return P.const(Fraction(1, 10**14))

    def prove_by_cases(self, a, b, tol, inds):
        """Equality under every feasible valuation of the indicators."""
        stack = [([], a, b)]
        while stack:
            conds, x, y = stack.pop()
            i = x.has_ind()
            if i is None:
                i = y.has_ind()
            if i is None:
                if Z.lra_equal([(x, y)], tol):
                    continue
                if Z.equal_by_clearing(x, y, tol, 10.0) is True:
                    continue
                r = self.solver.query(conds, "case", 4000, all_=True)
                if str(r) == "unsat":
                    continue
                return False
            at = P.W.atoms[i]
            for v in (0, 1):
                c2 = conds + [("ind", at, v)]
                if str(self.solver.query(c2, "case", 2000)) == "unsat":
                    continue
                stack.append((c2, x.subst_ind(i, v), y.subst_ind(i, v)))
            if len(stack) > 4000:
                return False
        return True

    def check(self, label, cond):
        """A condition that must hold for every input."""
        self.labels.append(label)
        self.obligations += 1
        p = cond.p if isinstance(cond, Cond) else (P1 if cond else ZERO)
        if p.is_const():
            if p.const() == 0:
                raise Broken(label, candidates_any(self))
            return
        c = ("lt", p - P.const(Fraction(1, 2)))
        r = self.solver.query([c], "check", 20000, all_=True)
        if str(r) == "unsat":
            return
        raise Broken(label, lambda k: self.candidates([c], k))

    def check_le(self, label, a, b, slack=0):
        """a <= b (+slack) for every input."""
        self.labels.append(label)
        self.obligations += 1
        d = Sc.of(a).e.p - Sc.of(b).e.p - P.const(slack)
        if d.is_const():
            if d.const() > 0:
                raise Broken(label, candidates_any(self))
            return
        s = P.sign_of(d)
        c = ("lt", -d)
        r = self.solver.query([c], "bound", 20000, all_=True)
        if str(r) == "unsat":
            return
        raise Broken(label, lambda k: self.candidates([c], k))

    def check_finite(self, label, t):
        self.labels.append(label)
        b = ZERO
        for e in to_arr(t).reshape(-1):
            self.obligations += 1
            if e.inf:
                raise Broken(label, candidates_any(self))
            if not e.bad.is_zero():
                self.prove_zero01(label, e.bad)
        if b.is_zero():
            return

    def check_bool(self, label, v):
        """A Python truth value (structure, types, exceptions)."""
        self.labels.append(label)
        self.obligations += 1
        if not v:
            raise Broken(label, candidates_any(self))

    # -- counterexample candidates
    def fix_env(self, env):
        for a in getattr(self, "angles", ()):
            t = env[f"{a}_s"]
            d = 1 + t * t
            env[f"{a}_s"], env[f"{a}_c"] = 2 * t / d, (1 - t * t) / d
        return env

    def candidates(self, conds, k):
        out = []
        for _ in range(k):
            m = self.solver.model(conds, nice=True)
            if m is None:
                m = self.solver.model(conds, nice=False, timeout=20000)
            if m is None:
                break
            out.append(m)
        return out

    def candidates_diff(self, a, b, k):
        """Points where the two terms differ visibly."""
        seen_at = getattr(self, "seen_at", 1e-6)
        out = []

        def visible(env):
            try:
                cache = {}
                x, y = P.evaluate(a, env, cache), P.evaluate(b, env, cache)
            except (ZeroDivisionError, ValueError, Unsupported, OverflowError):
                return False
            return abs(x - y) > seen_at * max(abs(x), abs(y)) and abs(x - y) > 1e-18

        simple = not self.solver.path and len(self.solver.assumptions) <= 40
        t0 = time.time()
        for _ in range(60):
            if len(out) >= k or time.time() - t0 > 20:
                break
            env = self.fix_env(self.solver.random_env())
            if self.solver.holds(env) and visible(env):
                out.append(env)
        if len(out) < k:
            d = a - b
            inds = sorted(i for i in P.support(d) if P.W.atoms[i].kind == "ind")
            pats = [[("ind", P.W.atoms[i], v)] for i in inds for v in (0, 1)]
            pats += [
                [("ind", P.W.atoms[i], 1), ("ind", P.W.atoms[j], 0)]
                for i in inds
                for j in inds
                if i != j
            ][:60]
            pats = [[]] * 3 + pats
            for p in pats:
                if len(out) >= k or time.time() - t0 > 90:
                    break
                env = self.solver.model(p, nice=True, timeout=3000)
                if env is not None and visible(env):
                    out.append(env)
            if len(out) < 1 and len(d.t) <= 300:
                eps = P.const(Fraction(1, 10**7))
                c = ("or", [("lt", eps - d), ("lt", eps + d)])
                env = self.solver.model([c], nice=True, timeout=20000)
                if env is not None:
                    out.append(env)
        return out


def candidates_any(ctx):
    def f(k):
        out = []
        for _ in range(4 * k):
            if len(out) >= k:
                break
            env = ctx.fix_env(ctx.solver.random_env())
            if ctx.solver.holds(env):
                out.append(env)
        while len(out) < k:
            m = ctx.solver.model((), nice=True)
            if m is None:
                break
            out.append(m)
        return out

    return f


def to_cond(c):
    if isinstance(c, Cond):
        if c.p.is_const():
            return ("le", P.const(0 if c.p.const() else 1))
        # a single indicator or its negation is translated directly
        return ("lt", P.const(Fraction(1, 2)) - c.p)
    return c


def to_arr(t):
    if isinstance(t, torch.Tensor):
        return S.A(t)
    if isinstance(t, Sc):
        return S.objarr((), [t.e])
    if isinstance(t, np.ndarray) and t.dtype == object:
        a = t
    else:
        a = np.array(t, dtype=object)
    return S.objarr(a.shape, [Sc.of(v).e for v in a.reshape(-1)]) if a.size else np.empty(a.shape, dtype=object)


# ------------------------------------------------------------------ concrete


class Failed(Exception):
    pass


class ConCtx(Base):
    symbolic = False

    def __init__(self, env):
        super().__init__()
        self.env = env
        self.failures: list[str] = []

    def real(self, name, lo=None, hi=None):
        v = float(Fraction(self.env[name]))
        return mpmath.mpf(v)

    def lit(self, x):
        if isinstance(x, Fraction):
            return mpmath.mpf(x.numerator) / x.denominator
        return mpmath.mpf(x)

    def tensor(self, xs, dtype=DT, requires_grad=False, plain=False):
        arr = np.array(xs, dtype=object)
        flat = [float(v) for v in arr.reshape(-1)]
        t = torch.tensor(flat, dtype=DT).reshape(arr.shape).to(dtype)
        if requires_grad:
            t.requires_grad_(True)
        return t

    def positions(self, name, n, box=6.0, rmin=0.5, coords=None, rmax=None):
        pts = []
        for i in range(n):
            row = []
            for k, ax in enumerate("xyz"):
                c = None if coords is None else coords[i][k]
                row.append(self.real(f"{name}{i}{ax}") if c is None else self.lit(c))
            pts.append(row)
        return pts

    def name_distances(self, *a, **k):
        pass

    def angle(self, name):
        s = self.real(f"{name}_s")
        c = mpmath.sqrt(1 - s * s)
        return (-c if self.real(f"{name}_c") < 0 else c), s

    def flush(self, lo=-746, denormal=-700):
        self.flushed = (lo, denormal)

    def overflow(self, fmax=3.4028e38):
        pass

    def eeq_linear(self, w, k=0.0):
        pass

    def eeq(self, numbers, positions, charge, cutoff):
        from . import stubs

        return stubs._orig(numbers, positions, charge, cutoff)

    def dist2(self, a, b):
        return sum((mpmath.mpf(a[k]) - mpmath.mpf(b[k])) ** 2 for k in range(3))

    def sqrt(self, x):
        return mpmath.sqrt(x)

    flushed = None

    def exp(self, x):
        if self.flushed and x < self.flushed[1]:
            if x > self.flushed[0]:
                raise Infeasible("subnormal exponential")
            return mpmath.mpf(0)
        return mpmath.exp(x)

    def log(self, x):
        return mpmath.log(x)

    def abs(self, x):
        return abs(mpmath.mpf(x))

    def erf(self, x):
        return mpmath.erf(x)

    def le(self, a, b):
        return CBool(mpmath.mpf(a) <= mpmath.mpf(b))

    def lt(self, a, b):
        return CBool(mpmath.mpf(a) < mpmath.mpf(b))

    def eq(self, a, b):
        return CBool(mpmath.mpf(a) == mpmath.mpf(b))

    def true(self, v=True):
        return CBool(v)

    def ite(self, c, a, b):
        return a if c.v else b

    def entries(self, t):
        return [mpmath.mpf(v) for v in t.detach().reshape(-1).tolist()]

    def assume(self, cond):
        if not cond.v:
            raise Infeasible("assumption")

    def assume_le(self, a, b):
        if not a <= b:
            raise Infeasible("assumption")

    def decide(self, cond):
        return cond.v

    def fork_mode(self):
        pass

    def _fail(self, msg):
        self.failures.append(msg)

    def _flat(self, t):
        if isinstance(t, torch.Tensor):
            return tuple(t.shape), [float(v) for v in t.detach().reshape(-1).tolist()]
        if isinstance(t, np.ndarray):
            a = t
        else:
            a = np.array(t, dtype=object)
        return a.shape, [_tofloat(v) for v in a.reshape(-1)]

    def check_eq(self, label, got, want, tol=None, allow_bad=False, atol=1e-19, rtol=None):
        self.labels.append(label)
        gs, g = self._flat(got)
        ws, w = self._flat(want)
        if gs != ws:
            return self._fail(f"{label}: shape {gs} instead of {ws}")
        rt = CON_RTOL if tol is None else max(CON_RTOL, float(tol))
        rt = rt if rtol is None else rtol
        for k, (x, y) in enumerate(zip(g, w)):
            if math.isnan(y) or math.isinf(y):
                if not (x == y or (math.isnan(x) and math.isnan(y))) and not allow_bad:
                    self._fail(f"{label}[{k}]: got {x!r}, expected {y!r}")
                continue
            if math.isnan(x) or math.isinf(x):
                if not allow_bad:
                    self._fail(f"{label}[{k}]: got {x!r}, expected {y!r}")
                continue
            if abs(x - y) > rt * max(abs(x), abs(y)) and abs(x - y) > atol:
                self._fail(f"{label}[{k}]: got {x!r}, expected {y!r}")

    def check(self, label, cond):
        self.labels.append(label)
        v = cond.v if isinstance(cond, CBool) else bool(cond)
        if not v:
            self._fail(label)

    def check_le(self, label, a, b, slack=0):
        self.labels.append(label)
        a, b = mpmath.mpf(a), mpmath.mpf(b)
        if not a <= b + slack + 1e-9 * max(abs(a), abs(b)):
            self._fail(f"{label}: {mpmath.nstr(a, 12)} > {mpmath.nstr(b, 12)}")

    def check_finite(self, label, t):
        self.labels.append(label)
        _, v = self._flat(t)
        if any(math.isnan(x) or math.isinf(x) for x in v):
            self._fail(f"{label}: {v}")

    def check_bool(self, label, v):
        self.labels.append(label)
        if not v:
            self._fail(label)


def _tofloat(v):
    if isinstance(v, torch.Tensor):
        return float(v.detach())
    return float(v)
