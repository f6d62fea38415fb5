"""
z3 back end: conditions, entailment, equality of terms, models.

Conditions are nested tuples over terms:
  ("le", p)  p <= 0     ("lt", p)  p < 0     ("eq", p)  p == 0    ("ne", p)
  ("and", [..])  ("or", [..])  ("not", c)  ("ind", atom, 0|1)
"""

from __future__ import annotations

import random
import sys
import time
from fractions import Fraction

import mpmath

try:
    import z3
except ImportError:  # the solver lives in the tool venv, the code in its own
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

from . import poly as P
from .poly import ONE, P1, ZERO, Poly, Unsupported

TOL = Fraction(1, 10**9)
"""Relative tolerance (against the sum of the absolute terms) under which two
real terms count as the same floating-point result."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.by: dict = {}

    def add(self, kind, r, dt):
        self.queries += 1
        self.time += dt
        k = str(r)
        if k == "unsat":
            self.unsat += 1
        elif k == "sat":
            self.sat += 1
        else:
            self.unknown += 1
        d = self.by.setdefault(kind, [0, 0.0])
        d[0] += 1
        d[1] += dt


STATS = Stats()


def rv(c: Fraction):
    c = Fraction(c)
    if c.numerator.bit_length() > 400 or c.denominator.bit_length() > 400:
        c = c.limit_denominator(10**80) if abs(c) > Fraction(1, 10**30) else c
    return z3.Q(c.numerator, c.denominator)


class Encoder:
    """Terms -> z3 reals, with the definitions of the atoms they use."""

    opaque = False

    def __init__(self):
        self.cache: dict = {}  # atom id -> z3 real
        self.defs: dict = {}  # atom id / key -> list of (constraint)
        self.deps: dict = {}  # key -> set of keys
        self.roots: dict = {}
        self.exps: dict = {}
        self._cur: set = set()

    # every encoded thing registers a key in self._cur
    def poly(self, p: Poly):
        if not p.t:
            return z3.RealVal(0)
        terms = []
        for (pw, ex), c in p.t.items():
            f = []
            for i, e in pw:
                f.append(self.power(P.W.atoms[i], e))
            if ex is not None:
                f.append(self.exp(ex))
            t = rv(c)
            for g in f:
                t = g if (t is None) else t * g
            terms.append(t)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def _define(self, key, build):
        """Run build() collecting dependencies of key."""
        if key in self.cache:
            self._cur.add(key)
            return self.cache[key]
        saved, self._cur = self._cur, set()
        v, cons = build()
        self.cache[key] = v
        self.defs[key] = cons
        self.deps[key] = self._cur
        self._cur = saved
        self._cur.add(key)
        return v

    def atom(self, a: P.Atom):
        def build():
            if a.kind == "var":
                v = z3.Real(f"v{a.id}_{a.name}")
                cons = []
                lo, hi = a.data if a.data else (None, None)
                if lo is not None:
                    cons.append(v >= rv(lo))
                if hi is not None:
                    cons.append(v <= rv(hi))
                if a.sign == 2:
                    cons.append(v > 0)
                elif a.sign == 1:
                    cons.append(v >= 0)
                return v, cons
            if a.kind in ("named", "poly"):
                v = z3.Real(f"n{a.id}")
                if self.opaque and a.kind == "named" and (
                    a.data[0] is None or len(a.data[1].t) > 6
                ):
                    cons = []
                    lo, hi = P.abounds(a, {})
                    if 1e-30 < lo < 1e30 or -1e30 < lo < -1e-30:
                        cons.append(v >= rv(Fraction(lo)))
                    if 1e-30 < abs(hi) < 1e30:
                        cons.append(v <= rv(Fraction(hi)))
                else:
                    cons = [v == self.poly(a.data[1])]
                if a.sign == 2:
                    cons.append(v > 0)
                elif a.sign == 1:
                    cons.append(v >= 0)
                return v, cons
            if a.kind == "ind":
                v = z3.Real(f"i{a.id}")
                c = self.poly(a.data[1]) <= 0
                return v, [z3.Or(z3.And(c, v == 1), z3.And(z3.Not(c), v == 0))]
            if a.kind == "log":
                v = z3.Real(f"l{a.id}")
                q = self.poly(a.data[1])
                return v, [v <= q - 1, z3.Implies(q >= 1, v >= 0), z3.Implies(q <= 1, v <= 0)]
            if a.kind == "fn":
                nm, q = a.data
                v = z3.Real(f"f{a.id}_{nm}")
                e = self.poly(q)
                if nm == "abs":
                    return v, [z3.If(e >= 0, v == e, v == -e)]
                if nm in ("erf", "tanh"):
                    return v, [v < 1, v > -1, z3.Implies(e > 0, v > 0), z3.Implies(e < 0, v < 0), z3.Implies(e == 0, v == 0)]
                if nm == "erfc":
                    return v, [v > 0, v < 2, z3.Implies(e > 0, v < 1), z3.Implies(e < 0, v > 1)]
                if nm in ("sin", "cos"):
                    return v, [v <= 1, v >= -1]
                if nm.startswith("round_"):
                    u = rv(Fraction(1, 2**24) if nm == "round_f32" else Fraction(1, 2**11))
                    tiny = rv(Fraction(1, 10**45) if nm == "round_f32" else Fraction(1, 10**7))
                    d = z3.If(e >= 0, e, -e) * u + tiny
                    return v, [v <= e + d, v >= e - d]
                return v, []
            raise Unsupported(a.kind)

        return self._define(a.id, build)

    def power(self, a: P.Atom, e):
        if isinstance(e, int):
            b = self.atom(a)
            if e >= 1:
                r = b
                for _ in range(e - 1):
                    r = r * b
                return r
            k = -e
            inv = self.inv(("inv", a.id), lambda: self.atom(a))
            r = inv
            for _ in range(k - 1):
                r = r * inv
            return r
        e = Fraction(e)
        n, d = e.numerator, e.denominator
        s = self.root(a, d)
        k = abs(n)
        if n < 0:
            key = ("rinv", a.id, d)
            s = self.inv(key, lambda: self.root(a, d))
        r = s
        for _ in range(k - 1):
            r = r * s
        return r

    def inv(self, key, base):
        def build():
            v = z3.Real(f"inv_{key[1]}_{key[-1]}_{key[0]}")
            b = base()
            return v, [v * b == 1]

        return self._define(key, build)

    def root(self, a, d):
        def build():
            v = z3.Real(f"rt{d}_{a.id}")
            b = self.atom(a)
            r = v
            for _ in range(d - 1):
                r = r * v
            return v, [v >= 0, r == b]

        return self._define(("root", a.id, d), build)

    def exp(self, arg: Poly):
        key = ("exp", arg)

        def build():
            v = z3.Real(f"e{len(self.exps)}")
            self.exps[key] = v
            x = self.poly(arg)
            return v, [v > 0, v >= 1 + x, z3.Implies(x < 1, v * (1 - x) <= 1)]

        return self._define(key, build)

    def cond(self, c):
        k = c[0]
        if k == "le":
            return self.poly(c[1]) <= 0
        if k == "lt":
            return self.poly(c[1]) < 0
        if k == "eq":
            return self.poly(c[1]) == 0
        if k == "ne":
            return self.poly(c[1]) != 0
        if k == "and":
            return z3.And([self.cond(x) for x in c[1]]) if c[1] else z3.BoolVal(True)
        if k == "or":
            return z3.Or([self.cond(x) for x in c[1]]) if c[1] else z3.BoolVal(False)
        if k == "not":
            return z3.Not(self.cond(c[1]))
        if k == "ind":
            q = self.poly(c[1].data[1])
            return q <= 0 if c[2] else q > 0
        raise Unsupported(f"condition {k}")

    def closure(self, keys):
        seen = set()
        stack = list(keys)
        while stack:
            k = stack.pop()
            if k in seen:
                continue
            seen.add(k)
            stack.extend(self.deps.get(k, ()))
        return seen


class Solver:
    """Entailment under the assumptions of one symbolic path."""

    def __init__(self, timeout_ms=400, seed=1):
        self.enc = Encoder()
        self.facts: list = []
        self.assumptions: list = []
        self.path: list = []
        self.timeout = timeout_ms
        self.memo: dict = {}
        self.rng = random.Random(seed)
        self.deadline = None

    # -- plumbing
    def reset_path(self):
        self.path = []
        self.memo = {}

    def _support(self, cond, acc):
        k = cond[0]
        if k in ("le", "lt", "eq", "ne"):
            P.support(cond[1], acc, True)
        elif k in ("and", "or"):
            for x in cond[1]:
                self._support(x, acc)
        elif k == "not":
            self._support(cond[1], acc)
        elif k == "ind":
            P.support(cond[1].data[1], acc, True)

    def relevant(self, conds, all_=False):
        """Assumptions connected to the query through shared variables."""
        ass = self.assumptions + self.path
        if all_:
            return ass
        acc: set = set()
        for c in conds:
            self._support(c, acc)
        pool = []
        for c in ass:
            s: set = set()
            self._support(c, s)
            pool.append((c, s))
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c, s in pool:
                if s & acc or not s:
                    out.append(c)
                    if len(out) < 60:
                        acc |= s
                    changed = True
                else:
                    rest.append((c, s))
            pool = rest
        return out

    def query(self, conds, kind, timeout=None, all_=False, want_model=False, opaque=False):
        """Satisfiability of assumptions + conds.

        opaque: registered names (squared distances) stay free variables that
        only obey the assumptions made about them; unsat is then still sound.
        """
        if opaque:
            if not hasattr(self, "enc2"):
                self.enc2 = Encoder()
                self.enc2.opaque = True
            enc = self.enc2
        else:
            enc = self.enc
        enc._cur = set()
        fs = [enc.cond(c) for c in self.relevant(conds, all_)]
        fs += [enc.cond(c) for c in conds]
        keys = enc.closure(enc._cur)
        s = z3.Solver()
        s.set("timeout", int(timeout or self.timeout))
        for k in keys:
            for d in enc.defs[k]:
                s.add(d)
        ex = [k for k in keys if isinstance(k, tuple) and k[0] == "exp"]
        if 1 < len(ex) <= 5:
            for i, a in enumerate(ex):
                for b in ex[i + 1 :]:
                    x, y = enc.poly(a[1]), enc.poly(b[1])
                    s.add(z3.Implies(x <= y, enc.cache[a] <= enc.cache[b]))
                    s.add(z3.Implies(x >= y, enc.cache[a] >= enc.cache[b]))
        for f in fs:
            s.add(f)
        t0 = time.time()
        r = s.check()
        STATS.add(kind, r, time.time() - t0)
        if want_model:
            return r, s
        return r

    # -- entailment
    def entails(self, cond):
        """True: cond always holds; False: never holds; None: otherwise."""
        key = (cond[0], cond[1]) if cond[0] != "ind" else ("ind", cond[1].id, cond[2])
        if key in self.memo:
            return self.memo[key]
        r = self._entails(cond)
        self.memo[key] = r
        return r

    def _entails(self, cond):
        q = cond[1] if cond[0] != "ind" else cond[1].data[1]
        if not self.easy(q):
            return None
        r = self.query([("not", cond)], "entail", opaque=True)
        if r == z3.unsat:
            return True
        if cond[0] == "ne":
            return None
        r = self.query([cond], "entail", opaque=True)
        if r == z3.unsat:
            return False
        return None

    def easy(self, q):
        """Entailment queries are limited to small terms (the answer None only
        leaves an indicator symbolic)."""
        if len(q.t) > 40:
            return False
        sup = P.support(q, None, True)
        if len(sup) > 14:
            return False
        exps = 0
        size = 0
        deg = 0
        polys = [q] + [
            P.W.atoms[i].data[1]
            for i in sup
            if P.W.atoms[i].kind != "var"
            and not (P.W.atoms[i].kind == "named" and (P.W.atoms[i].data[0] is None or len(P.W.atoms[i].data[1].t) > 6))
        ]
        for p in polys:
            size += len(p.t)
            for (pw, ex) in p.t:
                if ex is not None:
                    exps += 1
                    size += len(ex.t)
                deg = max(deg, sum(abs(e) for _, e in pw))
        return exps <= 3 and deg <= 16 and size <= 60

    def decider(self, cond):
        if self.facts and cond[0] == "le":
            r = self.linear(cond[1])
            if r is not None:
                return r
        return self.entails(cond)

    def add_fact(self, p):
        """Assume p <= 0, also for purely linear reasoning over its monomials."""
        self.assumptions.append(("le", p))
        self.facts.append(P._norm_le(p))

    def linear(self, p):
        """p <= 0 decided by a single fact f <= 0 with p = l f + c."""
        cp = Fraction(p.t.get(ONE, 0))
        for f in self.facts:
            if len(f.t) - (ONE in f.t) != len(p.t) - (ONE in p.t):
                continue
            lam = None
            for m, c in f.t.items():
                if m == ONE:
                    continue
                d = p.t.get(m)
                if d is None:
                    lam = None
                    break
                x = Fraction(d) / Fraction(c)
                if lam is None:
                    lam = x
                elif abs(x - lam) > Fraction(1, 10**10) * abs(lam):
                    lam = None
                    break
            if lam is None:
                continue
            cf = Fraction(f.t.get(ONE, 0))
            # the slack covers the tolerance on the coefficients
            c = cp - lam * cf
            tol = Fraction(1, 10**6) * (abs(cp) + abs(lam * cf))
            if lam < 0 and c > tol:
                return False
            if lam > 0 and c < -tol:
                return True
        return None

    # -- models
    def model(self, conds=(), nice=True, timeout=4000, tries=1, kind="model", pins=None):
        """A point satisfying the assumptions and conds: {var name: Fraction}."""
        r, s = self.query(list(conds), kind, timeout, all_=True, want_model=True)
        if r != z3.sat:
            return None
        vars_ = [a for a in P.W.atoms if a.kind == "var"]
        m = s.model()
        if nice:
            order = vars_[:]
            self.rng.shuffle(order)
            s.set("timeout", 300)
            t_end = time.time() + 8
            for a in order:
                if time.time() > t_end:
                    break
                if a.id not in self.enc.cache:
                    continue
                z = self.enc.cache[a.id]
                lo, hi = a.data if a.data else (None, None)
                lo = Fraction(-4) if lo is None else Fraction(lo)
                hi = Fraction(4) if hi is None else Fraction(hi)
                ok = False
                cands = []
                if pins and a.name in pins:
                    cands.append(Fraction(pins[a.name]))
                for _ in range(2):
                    x = lo + (hi - lo) * Fraction(self.rng.randint(0, 4096), 4096)
                    q = Fraction(round(x * 8), 8)
                    cands.append(q if lo <= q <= hi else x)
                for x in cands:
                    s.push()
                    s.add(z == rv(x))
                    t0 = time.time()
                    r = s.check()
                    STATS.add("pin", r, time.time() - t0)
                    if r == z3.sat:
                        m = s.model()
                        ok = True
                        break
                    s.pop()
                if not ok:
                    continue
        env = {}
        for a in vars_:
            lo, hi = a.data if a.data else (None, None)
            if a.id in self.enc.cache:
                v = m.eval(self.enc.cache[a.id], model_completion=False)
                if z3.is_rational_value(v):
                    env[a.name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    continue
                if z3.is_algebraic_value(v):
                    w = v.approx(30)
                    env[a.name] = Fraction(w.numerator_as_long(), w.denominator_as_long())
                    continue
            lo = Fraction(-2) if lo is None else Fraction(lo)
            hi = Fraction(2) if hi is None else Fraction(hi)
            x = lo + (hi - lo) * Fraction(self.rng.randint(1, 4095), 4096)
            q = Fraction(round(x * 8), 8)
            env[a.name] = q if lo < q < hi else x
        return env

    def random_env(self, spread=True):
        env = {}
        for a in P.W.atoms:
            if a.kind != "var":
                continue
            lo, hi = a.data if a.data else (None, None)
            lo = Fraction(-2) if lo is None else Fraction(lo)
            hi = Fraction(2) if hi is None else Fraction(hi)
            x = lo + (hi - lo) * Fraction(self.rng.randint(1, 4095), 4096)
            q = Fraction(round(x * 16), 16)
            env[a.name] = q if lo < q < hi else x
        return env

    def holds(self, env, conds=None):
        """Do the assumptions (and conds) hold at a point (numerically)?"""
        cache: dict = {}
        try:
            return all(eval_cond(c, env, cache) for c in (self.assumptions + self.path if conds is None else conds))
        except (ZeroDivisionError, ValueError, Unsupported):
            return False


def eval_cond(c, env, cache):
    k = c[0]
    if k == "le":
        return P.evaluate(c[1], env, cache) <= 0
    if k == "lt":
        return P.evaluate(c[1], env, cache) < 0
    if k == "eq":
        return abs(P.evaluate(c[1], env, cache)) < mpmath.mpf(10) ** -25
    if k == "ne":
        return P.evaluate(c[1], env, cache) != 0
    if k == "and":
        return all(eval_cond(x, env, cache) for x in c[1])
    if k == "or":
        return any(eval_cond(x, env, cache) for x in c[1])
    if k == "not":
        return not eval_cond(c[1], env, cache)
    if k == "ind":
        return (P.evaluate(c[1].data[1], env, cache) <= 0) == bool(c[2])
    raise Unsupported(k)


# ------------------------------------------------------------------ equality


def _round_q(c: Fraction, digits=30) -> Fraction:
    """Keep ~30 significant digits (the LRA tolerance is 1e-9)."""
    if c == 0 or (c.numerator.bit_length() < 120 and c.denominator.bit_length() < 120):
        return c
    k = c.numerator.bit_length() - c.denominator.bit_length()
    sh = 110 - k
    if sh >= 0:
        return Fraction(round(c * (1 << sh)), 1 << sh)
    return Fraction(round(c / (1 << -sh)) * (1 << -sh))


def lra_equal(pairs, tol=TOL, mags=None):
    """Is every pair of terms equal for all values of their monomials?

    The absolute values |m| of the monomials become free nonnegative reals; the
    query asks for values with  sum |delta_m| |m| > tol * sum scale_m |m|  for
    some pair (delta_m: difference of the coefficients).  unsat: the pairs
    agree, up to tol relative to the size of their terms, for every input.
    """
    if not all(coeff_equal(a, b, tol, mags[k] if mags is not None else None) for k, (a, b) in enumerate(pairs)):
        return False  # only ever used to look for another proof
    s = z3.Solver()
    s.set("timeout", 60000)
    absv: dict = {}

    def mag_var(m):
        v = absv.get(m)
        if v is None:
            if m == ONE:
                v = z3.RealVal(1)
            else:
                v = z3.Real(f"a{len(absv)}")
                s.add(v >= 0)
            absv[m] = v
        return v

    goals = []
    for k, (a, b) in enumerate(pairs):
        d = []
        mag = mags[k] if mags is not None else None
        for m in set(a.t) | set(b.t):
            x, y = a.t.get(m, Fraction(0)), b.t.get(m, Fraction(0))
            delta = x - y
            if delta == 0:
                continue  # leaving its magnitude out only makes the bound tighter
            scale = max(abs(x), abs(y)) if mag is None else max(abs(x), abs(y), mag.get(m, Fraction(0)))
            d.append(rv(_round_q(abs(delta) - tol * scale)) * mag_var(m))
        if d:
            goals.append((z3.Sum(d) if len(d) > 1 else d[0]) > 0)
    s.add(z3.Or(goals) if goals else z3.BoolVal(False))
    t0 = time.time()
    r = s.check()
    STATS.add("equal", r, time.time() - t0)
    return r == z3.unsat


class TooBig(Exception):
    pass


def _expand_once(t: dict, limit, absolute, ok):
    """Replace integer powers >= 1 of defined atoms by their definitions."""
    out: dict = {}
    again = False
    for (pw, ex), c in t.items():
        parts = []
        rest = []
        for i, e in pw:
            a = P.W.atoms[i]
            if i in ok:
                n = int(Fraction(e).__floor__())
                if n >= 1:
                    parts.append((a.data[1], n))
                    f = P._red(Fraction(e) - n)
                    if f != 0:
                        rest.append((i, f))
                    continue
            rest.append((i, e))
        if not parts:
            m = (pw, ex)
            if not pw and ex is None:
                m = ONE
            out[m] = out.get(m, 0) + (abs(c) if absolute else c)
            continue
        again = True
        cur = {(tuple(rest), ex) if (rest or ex is not None) else ONE: (abs(c) if absolute else c)}
        for q, n in parts:
            for _ in range(n):
                nxt: dict = {}
                for m1, c1 in cur.items():
                    for m2, c2 in q.t.items():
                        m = P.mono_mul(m1, m2)
                        if not m[0] and m[1] is None:
                            m = ONE
                        nxt[m] = nxt.get(m, 0) + c1 * (abs(c2) if absolute else c2)
                cur = {m: P.shrink(v) for m, v in nxt.items() if v != 0 or absolute}
                if len(cur) > limit:
                    raise TooBig
        for m, v in cur.items():
            out[m] = out.get(m, 0) + v
        if len(out) > limit:
            raise TooBig
    return out, again


def definable(*ps):
    """Atoms with a polynomial definition, innermost first."""
    acc: set = set()
    for p in ps:
        P.support(p, acc)
    return sorted(i for i in acc if P.W.atoms[i].kind in ("poly", "named"))


def top_atoms(*ps):
    acc = set()
    for p in ps:
        for (pw, _) in p.t:
            for i, _e in pw:
                if P.W.atoms[i].kind in ("poly", "named"):
                    acc.add(i)
    return acc


def clear_strategies(a, b):
    """Sets of definitions to expand, cheapest first."""
    top = sorted(top_atoms(a, b), key=lambda i: (len(P.W.atoms[i].data[1].t), i))
    reg = {i for i in definable(a, b) if P.W.atoms[i].kind == "named" and P.W.atoms[i].data[0] is None}
    poly = [i for i in top if i not in reg]
    # first what only one side mentions
    seen = [(top_atoms(a) ^ top_atoms(b)) - reg]
    for i in poly:
        seen.append({i})
    alln = set(definable(a, b)) - reg
    for k in range(2, len(poly) + 1):
        seen.append(set(poly[:k]))
    seen.append(alln)
    if reg:
        seen.append(set(definable(a, b)))
    out = []
    for x in seen:
        if x and x not in out:
            out.append(x)
    return out


def equal_by_clearing(a, b, tol, budget=30.0):
    """Equality after clearing denominators (several expansion orders)."""
    t0 = time.time()
    for ok in clear_strategies(a, b):
        if time.time() - t0 > budget:
            return None
        try:
            x, y, m = clear(a, b, ok, deadline=t0 + budget)
        except TooBig:
            continue
        if coeff_equal(x, y, tol, m) and lra_equal([(x, y)], tol, [m]):
            return True
    return False


def coeff_equal(a, b, tol, mag=None):
    """Cheap necessary condition for lra_equal: every coefficient agrees."""
    for m in set(a.t) | set(b.t):
        x, y = a.t.get(m, Fraction(0)), b.t.get(m, Fraction(0))
        s = max(abs(x), abs(y))
        if mag is not None:
            s = max(s, mag.get(m, Fraction(0)))
        if abs(x - y) > tol * s:
            return False
    return True


def clear(a: Poly, b: Poly, ok=None, limit=20000, deadline=None):
    """Multiply both sides by the denominators and expand definitions."""
    if ok is None:
        ok = set(definable(a, b))
    A, B = dict(a.t), dict(b.t)
    M = {}
    for t in (A, B):
        for m, c in t.items():
            M[m] = M.get(m, Fraction(0)) + abs(c)
    for _ in range(400):
        if deadline is not None and time.time() > deadline:
            raise TooBig
        # most negative exponents of defined atoms
        low: dict = {}
        for t in (A, B):
            for (pw, ex) in t:
                for i, e in pw:
                    if e < 0 and i in ok:
                        low[i] = min(low.get(i, 0), e)
        if low:
            # one atom at a time, the most recently created first: its
            # definition only mentions older atoms
            i = max(low)
            f = (((i, P._red(-Fraction(low[i]))),), None)

            def times(t):
                r: dict = {}
                for m, c in t.items():
                    k = P.mono_mul(m, f)
                    if not k[0] and k[1] is None:
                        k = ONE
                    r[k] = r.get(k, Fraction(0)) + c
                return r

            A, B, M = times(A), times(B), times(M)
        A, x = _expand_once(A, limit, False, ok)
        B, y = _expand_once(B, limit, False, ok)
        M, z = _expand_once(M, limit, True, ok)
        if not (x or y or z or low):
            return Poly({m: c for m, c in A.items() if c}), Poly({m: c for m, c in B.items() if c}), M
    raise TooBig
