"""C14: damping parameters scale, default and convert as documented."""

import torch

from . import common as C

EXPLANATION = """
The energy is computed with symbolic s6, s8, s9, s10 and geometry and compared
by z3 with s6 E(s6=1) + s8 E(s8=1) + s9 E(s9=1) (+ s10): linear, separable,
s9 = 0 removes exactly the three-body term.  Omitted parameters equal their
documented defaults, unused parameters have no effect, and Python ints, floats,
0-d tensors and 1-element parameters give the same energy.
"""
ASSUMPTIONS = ["distances >= 0.5 bohr", "parameter ranges of checks/common.py"]


def _setup(ctx, cfg):
    Z = cfg["Z"]
    sysm = Z if isinstance(Z[0], list) else [Z]
    n = len(sysm[0])
    S = C.system(ctx, dict(cfg, Z=sysm, q="num", fixed=dict(s6=1, s8=1, s9=1, a1=0.4, a2=4.8, rs6=1.2, rs8=1.1, alp=14, bet=0.1)))
    lead = [len(sysm)] if isinstance(Z[0], list) else []
    return sysm, n, S, dict(cfg, Z=sysm, lead=lead)


def _run(ctx, cfg, S, par):
    return C.evaluate_par(ctx, cfg, S, par)


def linear(ctx, cfg):
    sysm, n, S, c = _setup(ctx, cfg)
    kind = cfg.get("damping", "rational")
    base = {k: ctx.tensor(ctx.real(k, *C.PARAMS[k])) for k in C.NEEDS[kind]} if cfg.get("sympar") else {k: {"a1": 0.4, "a2": 4.8, "rs6": 1.2, "rs8": 1.1, "alp": 14.0, "bet": 0.1}[k] for k in C.NEEDS[kind]}
    names = ["s6", "s8"] + ([] if cfg.get("two") else ["s9"]) + (["s10"] if cfg.get("s10") else [])
    s = {k: ctx.real(k, *C.PARAMS[k]) for k in names}
    if cfg.get("two"):
        base["s9"] = 0.0
    e = ctx.entries(_run(ctx, c, S, {**base, **{k: ctx.tensor(v) for k, v in s.items()}}))
    parts = {}
    for k in names:
        parts[k] = ctx.entries(_run(ctx, c, S, {**base, **{j: 1.0 if j == k else 0.0 for j in names}}))
    want = [ctx.sum([s[k] * parts[k][i] for k in names]) for i in range(len(e))]
    ctx.check_eq("linear in the scaling factors", e, want)
    if "s9" in names:
        z = ctx.entries(_run(ctx, c, S, {**base, **{k: (0.0 if k == "s9" else ctx.tensor(v)) for k, v in s.items()}}))
        t = C.evaluate_par(ctx, dict(c, route="disp2"), S, {**base, **{k: ctx.tensor(v) for k, v in s.items()}})
        ctx.check_eq("s9 = 0 leaves the two-body energy", z, ctx.entries(t))


def defaults(ctx, cfg):
    """Omitted keys mean their documented default."""
    sysm, n, S, c = _setup(ctx, cfg)
    kind = cfg.get("damping", "rational")
    D = dict(s6=1.0, s8=1.0, s9=1.0, alp=16.0, rs6=1.0, rs8=1.0, s10=0.0)
    num = dict(s6=1.3, s8=0.8, s9=0.7, s10=0.6, a1=0.4, a2=4.8, alp=14.0, rs6=1.2, rs8=1.1, bet=0.1)
    full = {k: ctx.tensor(ctx.real(k, *C.PARAMS[k])) if k in ("s6", "s8", "s9", "s10") else num[k] for k in dict.fromkeys(["s6", "s8", "s9", *C.NEEDS[kind], *cfg.get("also", [])])}
    for k in cfg["omit"]:
        a = {x: v for x, v in full.items() if x != k}
        b = dict(full)
        b[k] = D[k]
        ctx.check_eq(f"omitted {k}", ctx.entries(_run(ctx, c, S, a)), ctx.entries(_run(ctx, c, S, b)))


def forms(ctx, cfg):
    """int / float / tensor parameters; unused parameters."""
    sysm, n, S, c = _setup(ctx, cfg)
    kind = cfg.get("damping", "rational")
    ints = dict(s6=1, s8=2, s9=1, s10=1, a1=1, a2=5, rs6=1, rs8=2, rs9=1, alp=14, bet=1)
    names = list(dict.fromkeys(["s6", "s8", "s9", *C.NEEDS[kind]] + (["s10"] if cfg.get("s10") else [])))
    i = {k: ints[k] for k in names}
    f = {k: float(ints[k]) for k in names}
    t = {k: torch.tensor(float(ints[k]), dtype=C.DT) for k in names}
    ref = ctx.entries(_run(ctx, c, S, t))
    ctx.check_eq("int parameters", ctx.entries(_run(ctx, c, S, i)), ref)
    ctx.check_eq("float parameters", ctx.entries(_run(ctx, c, S, f)), ref)
    mix = {k: (i, f, t)[x % 3][k] for x, k in enumerate(names)}
    ctx.check_eq("mixed parameters", ctx.entries(_run(ctx, c, S, mix)), ref)
    rev = {k: t[k] for k in reversed(names)}
    ctx.check_eq("order of the keys", ctx.entries(_run(ctx, c, S, rev)), ref)
    ctx.check_eq("doi", ctx.entries(_run(ctx, c, S, dict(t, doi="10.1/x"))), ref)
    for k in cfg.get("unused", []):
        x = ctx.tensor(ctx.real(f"unused_{k}", *C.PARAMS[k]))
        ctx.check_eq(f"unused {k}", ctx.entries(_run(ctx, c, S, dict(t, **{k: x}))), ref)


def missing(ctx, cfg):
    """Mandatory parameters are not invented."""
    sysm, n, S, c = _setup(ctx, cfg)
    kind = cfg.get("damping", "rational")
    num = dict(s6=1.3, s8=0.8, s9=0.7, a1=0.4, a2=4.8, alp=14.0, rs6=1.2, rs8=1.1, bet=0.1)
    for k in cfg["keys"]:
        p = {x: num[x] for x in dict.fromkeys(["s6", "s8", "s9", *C.NEEDS[kind]]) if x != k}
        try:
            _run(ctx, c, S, p)
            ok = False
        except (TypeError, KeyError, ValueError):
            ok = True
        ctx.check_bool(f"missing {k} is refused", ok)


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    lin = [[[None, 0.3, 0.1], [2.5, -1.0, 0.4], [0.5, 2.8, -1.9]]]
    for m in ("d4", "d4s"):
        add("linear", Z=[6, 8, 1], model=m, grid=True, sympar=True)
        add("linear", Z=[6, 8, 1], model=m, coords=lin, s10=True)
        add("linear", Z=[[6, 8, 0], [7, 1, 1]], model=m, grid=True, sympar=True)
    add("linear", Z=[6, 8], s10=True)
    add("linear", Z=[6, 8, 1], route="exact", grid=True, sympar=True)
    add("linear", Z=[6, 8, 1], route="disp", grid=True)
    for d in ("zero", "mzero", "op"):
        add("linear", Z=[6, 8], damping=d, two=True, route="disp2")
    add("defaults", Z=[6, 8, 1], grid=True, omit=["s6", "s9"])
    add("defaults", Z=[6, 8, 1], grid=True, omit=["s6", "s9"], model="d4s", route="disp")
    add("defaults", Z=[6, 8, 1], grid=True, omit=["alp", "s9"], also=["alp"])
    add("defaults", Z=[6, 8, 1], grid=True, omit=["alp", "s9", "s6"], also=["alp"], route="exact")
    add("defaults", Z=[6, 8, 1], coords=lin, omit=["s6", "s9", "s10"])
    add("defaults", Z=[6, 8, 1], grid=True, damping="zero", route="disp2", omit=["s6", "alp"])
    add("defaults", Z=[6, 8, 1], grid=True, damping="mzero", route="disp2", omit=["s6", "alp"])
    # (with a radius scaling the eighth order is on, whatever s8)
    for d in ("zero", "mzero", "userv"):
        add("defaults", Z=[6, 8, 1], grid=True, damping=d, route="disp2", omit=["s6", "s8"])
        add("defaults", Z=[[6, 8, 0], [7, 1, 1]], grid=True, damping=d, route="disp2", omit=["s8"], model="d4s")
    add("defaults", Z=[6, 8, 1], grid=True, damping="userv", route="disp2", omit=["s6", "s8", "s10"], also=["s10"])
    add("defaults", Z=[6, 8, 1], grid=True, damping="userv", omit=["s6", "s8", "s9", "s10"], also=["s10"])
    add("defaults", Z=[6, 8, 1], grid=True, damping="user", omit=["s6", "s9", "s10"], also=["s10"])
    add("defaults", Z=[6, 8], grid=True, omit=["s8", "s6"], also=["rs8", "rs6"])
    for d in ("user", "userv"):
        add("linear", Z=[6, 8, 1], damping=d, s10=True, grid=True, sympar=True)
        add("linear", Z=[[6, 8, 0], [7, 1, 1]], damping=d, s10=True, grid=True, model="d4s")
        add("linear", Z=[6, 8], damping=d, s10=True, two=True, route="disp2")
        add("forms", Z=[6, 8], damping=d, route="disp2", unused=["alp", "bet", "rs9"], s10=True)
    add("forms", Z=[6, 8, 1], coords=lin, unused=["rs6", "rs8", "rs9", "bet"])
    add("forms", Z=[6, 8, 1], coords=lin, unused=["rs6", "rs8", "rs9", "bet"], s10=True, model="d4s")
    add("forms", Z=[6, 8, 1], grid=True, unused=["rs6", "rs9", "bet"], route="exact")
    add("forms", Z=[6, 8], damping="zero", route="disp2", unused=["a1", "a2", "bet", "rs9"])
    add("forms", Z=[6, 8], damping="mzero", route="disp2", unused=["a1", "a2", "rs9"])
    add("forms", Z=[6, 8], damping="op", route="disp2", unused=["rs6", "rs8", "alp"])
    add("missing", Z=[6, 8, 1], grid=True, keys=["a1", "a2"])
    add("missing", Z=[6, 8, 1], grid=True, keys=["a1", "a2"], damping="op", route="disp2")
    return J
