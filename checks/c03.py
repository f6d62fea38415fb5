"""C03: damping functions."""

import torch

from . import common as C

EXPLANATION = """
Every damping class is called directly with symbolic distances, radii and
parameters, for each order and each way of passing parameters; z3 compares the
value with the published form and shows 0 <= f(R) R^n <= 1 (a damped term never
exceeds the undamped one, never changes sign).  Missing mandatory parameters,
unsupported orders and switched-off terms are enumerated.
"""
ASSUMPTIONS = ["0.5 <= R <= 60", "2 <= R0 <= 8, 3 <= 3 r4r2 r4r2 <= 300"]

SUPPORT = {"rational": (6, 8, 10), "zero": (6, 8, 9), "mzero": (6, 8), "op": (6, 8)}


def value(ctx, cfg):
    kind, n = cfg["damping"], cfg["order"]
    m = 3
    r = [[None] * m for _ in range(m)]
    for i in range(m):
        for j in range(m):
            r[i][j] = ctx.real(f"r{i}{j}", *((0.05, 500) if cfg.get("far") else (0.5, 60)))
    lo, hi = (3, 300) if C.radius_type(kind) == "r4r2" else (2, 8)
    if cfg.get("far"):
        lo, hi = (0.03, 9000) if hi == 300 else (0.2, 25)
    rad = [[ctx.real(f"rad{i}{j}", lo, hi) for j in range(m)] for i in range(m)]
    names = list(C.NEEDS[kind])
    if n == 9:
        names = ["rs9", "alp"]
    p = C.params(ctx, names, cfg.get("fixed"), cfg.get("far"))
    give = {k: v for k, v in p.items() if k not in cfg.get("omit", [])}
    kw = C.tparams(ctx, give)
    for k, v in cfg.get("plain", {}).items():
        kw[k] = v  # Python numbers
        p[k] = ctx.lit(v)
    for k in cfg.get("extra", []):
        kw[k] = ctx.tensor(ctx.real(f"extra_{k}", *C.PARAMS[k]))
    if n == 8 and "s8" not in kw and C.radius_type(kind) == "r4r2":
        kw["s8"] = 1.0
    if n == 10:
        kw["s10"] = 1.0
    only = cfg.get("only", False)
    f = C.damping(kind)(ctx.tensor(r), ctx.tensor(rad), n, **({"only_damping": True} if only else {}), **kw)
    one = ctx.lit(1)
    want = []
    for i in range(m):
        for j in range(m):
            if n == 9:
                v = one / (one + 6 * (p["rs9"] * rad[i][j] / r[i][j]) ** p["alp"])
                if not only:
                    v = v / r[i][j] ** 9
            else:
                v = C.damp(ctx, kind, n, r[i][j], rad[i][j], p)
                if only:
                    v = v * r[i][j] ** n
            want.append(v)
    ctx.check_eq("damping function", f.reshape(-1), want)
    if cfg.get("bound"):
        v = ctx.entries(f)[0]
        ctx.check_le("f >= 0", ctx.lit(0), v)
        ctx.check_le("f R^n <= 1", v if only else v * r[0][0] ** n, one)


def off(ctx, cfg):
    """A term without its scaling (and radius scaling) contributes nothing."""
    kind, n = cfg["damping"], cfg["order"]
    r = ctx.tensor([ctx.real("r", 0.5, 60), ctx.real("r1", 0.5, 60)])
    rad = ctx.tensor([ctx.real("rad", 3, 8), ctx.real("rad1", 3, 8)])
    kw = dict(cfg.get("kw", {}))
    f = C.damping(kind)(r, rad, n, **kw)
    ctx.check_eq("switched off", f, [ctx.lit(0), ctx.lit(0)])


def required(ctx, cfg):
    """Missing mandatory parameters and unsupported orders are rejected."""
    kind, n = cfg["damping"], cfg["order"]
    r = ctx.tensor([ctx.real("r", 0.5, 60)])
    rad = ctx.tensor([ctx.real("rad", 3, 8)])
    names = cfg["give"]
    p = C.params(ctx, names)
    kw = C.tparams(ctx, p)
    kw.update({k: None for k in cfg.get("none", [])})
    kw.update(cfg.get("plain", {}))
    try:
        C.damping(kind)(r, rad, n, **kw)
        got = "accepted"
    except (TypeError, ValueError) as ex:
        got = type(ex).__name__
    ctx.check_bool(f"{kind}[{n}] with {sorted(kw)}: {got}, expected {cfg['expect']}", got == cfg["expect"])


def zero_scaling(ctx, cfg):
    """A scaling of exactly 0 does not switch the damping function itself off."""
    kind, n = cfg["damping"], cfg["order"]
    r = ctx.real("r", 0.5, 60)
    lo, hi = (3, 300) if C.radius_type(kind) == "r4r2" else (2, 8)
    rad = ctx.real("rad", lo, hi)
    p = C.params(ctx, list(C.NEEDS[kind]))
    kw = C.tparams(ctx, p)
    kw[f"s{n}"] = cfg["zero"]
    f = C.damping(kind)(ctx.tensor([r]), ctx.tensor([rad]), n, **kw)
    ctx.check_eq("value", f, [C.damp(ctx, kind, n, r, rad, p)])


def same(ctx, cfg):
    """Equality of damping functions is equality of their type."""
    a = ctx.real("unused", 0, 1)
    ctx.check_le("dummy", a, 1)
    ks = ["rational", "zero", "mzero", "op"]
    for i in ks:
        for j in ks:
            ctx.check_bool(f"{i} == {j}", (C.damping(i) == C.damping(j)) == (i == j))
            ctx.check_bool(f"{i} != {j}", (C.damping(i) != C.damping(j)) == (i != j))
        ctx.check_bool(f"{i} == object", not (C.damping(i) == object()))
        ctx.check_bool(f"{i} radius", C.damping(i).radius_type == C.radius_type(i))


def custom(ctx, cfg):
    """Damping functions written by the user: declared parameters are enforced."""
    from tad_dftd4.damping import functions as f

    r, rad = ctx.real("r", 0.5, 60), ctx.real("rad", 3, 300)
    p = C.params(ctx, ["a1", "a2", "rs6", "rs8"])
    t = C.tparams(ctx, p)
    R, Q = ctx.tensor([r]), ctx.tensor([rad])

    def outcome(d, n, **kw):
        try:
            return d(R, Q, n, **kw)
        except (TypeError, ValueError) as ex:
            return type(ex).__name__

    for kind, names in (("user", ("a1", "a2")), ("userv", ("rs6", "rs8"))):
        d = C.damping(kind)
        kw = {k: t[k] for k in names}
        for n in (6, 8):
            ctx.check_eq(f"{kind}[{n}]", d(R, Q, n, s8=1.0, **kw), [C.damp(ctx, kind, n, r, rad, p)])
    d = C.damping("userv")
    ctx.check_bool("undeclared parameter is optional", not isinstance(outcome(d, 6, rs6=t["rs6"]), str))
    ctx.check_bool("declared parameter missing", outcome(d, 6, rs8=t["rs8"]) == "TypeError")
    ctx.check_bool("declared parameter missing (order 8)", outcome(d, 8, s8=1.0, rs6=t["rs6"]) == "TypeError")

    class Scaled(f.RationalDamping):
        """Overrides the formula, inherits the declaration."""

        def _f(self, distances, radii, order, *, a1=None, a2=None, **kw):
            return 2.0 / (distances**order + (1.0 if a1 is None else a1) * radii + (0.0 if a2 is None else a2))

    ctx.check_eq("inherited", Scaled()(R, Q, 6, a1=t["a1"], a2=t["a2"]), [2 * C.damp(ctx, "user", 6, r, rad, p)])
    ctx.check_bool("inherited declaration", outcome(Scaled(), 6, a1=t["a1"]) == "TypeError")

    class More(f.RationalDamping):
        """Declares more than its parent."""

        REQUIRED_BY_ORDER = {6: ("a1", "a2", "bet")}

    ctx.check_eq("extended", More()(R, Q, 6, a1=t["a1"], a2=t["a2"], bet=1.0), [C.damp(ctx, "rational", 6, r, rad, p)])
    ctx.check_bool("extended declaration", outcome(More(), 6, a1=t["a1"], a2=t["a2"]) == "TypeError")
    ctx.check_bool("parent unaffected", not isinstance(outcome(f.RationalDamping(), 6, a1=t["a1"], a2=t["a2"]), str))
    try:

        class Wrong(f.Damping):
            radius_type = "r4r2"
            REQUIRED_BY_ORDER = {6: ("a7",)}

            def _f(self, distances, radii, order, *, a1=None, only_damping=False):
                return distances

        got = "accepted"
    except TypeError:
        got = "TypeError"
    ctx.check_bool("a declaration naming no parameter is refused", got == "TypeError")
    ctx.check_bool("classes differ", not (Scaled() == f.RationalDamping()) and Scaled() == Scaled())


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    add("same")
    add("custom")
    for kind, orders in SUPPORT.items():
        for n in orders:
            if n == 9:
                for only in (True, False):
                    add("value", damping=kind, order=n, only=only, fixed={"alp": 16})
                    add("value", damping=kind, order=n, only=only)
                    add("value", damping=kind, order=n, only=only, far=True)
                add("value", damping=kind, order=9, only=True, fixed={"alp": 16, "rs9": 1}, omit=["alp", "rs9"])
                add("value", damping=kind, order=9, only=True, fixed={"alp": 8}, bound=True)
                continue
            add("value", damping=kind, order=n)
            add("value", damping=kind, order=n, far=True)
            add("value", damping=kind, order=n, extra=["s6", "s9"])
            add("value", damping=kind, order=n, only=True)
            add("value", damping=kind, order=n, only=True, far=True)
            b = {"bet": 1, "alp": 14}
            b = {k: v for k, v in b.items() if k in C.NEEDS[kind]}
            add("value", damping=kind, order=n, bound=True, fixed=b)
            pl = {"a1": 0.45, "a2": 4, "rs6": 1, "rs8": 0.9, "alp": 14, "bet": 1}
            add("value", damping=kind, order=n, plain={k: pl[k] for k in C.NEEDS[kind]})
            for z in (0, 0.0):
                if kind in ("rational", "op"):
                    add("zero_scaling", damping=kind, order=n, zero=z)
    add("value", damping="zero", order=6, only=True, fixed={"alp": 14})
    add("value", damping="zero", order=8, fixed={"alp": 16}, omit=["alp"])
    add("value", damping="zero", order=6, fixed={"alp": 16}, omit=["alp"], only=True)
    full = {"rational": ["a1", "a2"], "zero": ["rs6", "rs8", "rs9", "alp"], "mzero": ["rs6", "rs8", "alp", "bet"], "op": ["a1", "a2", "bet"]}
    for kind, names in full.items():
        for n in (6, 8, 9, 10):
            on = {8: {"s8": 1.0}, 10: {"s10": 1.0}}.get(n, {})
            if n in SUPPORT[kind]:
                need = [x for x in names if not (x.startswith("rs") and x != f"rs{n}")]
                for x in need:
                    if x in ("alp", "rs9"):
                        # defaulted by the caller interface, so it must be
                        # switched off explicitly
                        add("required", damping=kind, order=n, give=[y for y in names if y != x], none=[x], plain=on, expect="TypeError")
                    else:
                        give = [y for y in names if y != x]
                        add("required", damping=kind, order=n, give=give, plain={**on}, expect="TypeError")
                add("required", damping=kind, order=n, give=names, plain=on, expect="accepted")
            elif not (kind == "rational" and n == 9):
                add("required", damping=kind, order=n, give=names, plain=on, expect="ValueError")
    add("off", damping="rational", order=8, kw=dict(a1=0.4, a2=5.0))
    add("off", damping="rational", order=10, kw=dict(a1=0.4, a2=5.0, s8=1.0))
    add("off", damping="op", order=8, kw=dict(a1=0.4, a2=5.0, bet=1.0))
    add("off", damping="zero", order=8, kw=dict(rs6=1.0))
    add("off", damping="zero", order=9, kw=dict(s9=None, rs9=None))
    add("off", damping="rational", order=6, kw=dict(s6=None, a1=0.4, a2=5.0))
    return J
