"""C18: every entry point evaluates the published DFT-D4 energy."""

import torch

from . import common as C

EXPLANATION = """
dftd4, DispD4, DispD4Exact and a hand-composed Disp run on symbolic geometry,
charges, coordination numbers, parameters and overrides; z3 compares every atom
with the energy written from the published equations alone: coordination
numbers of tad-mctc (third party), Gaussian reference weights, charge scaling,
Casimir-Polder C6 from the pinned reference data, Becke-Johnson damped two-body
sum with C6(CN, q), and the ATM sum with C9 at zero charge.  The entry points
are thereby also equal to each other.
"""
ASSUMPTIONS = ["distances >= 0.5 bohr", "configurations marked c6min assume C6(AB) C6(AC) C6(BC) >= 1e-9 (it is a mean of reference values > 1)", "-0.5 <= q <= 0.5, 0 <= CN <= 8 (far: -0.9 <= q <= 4)"]


def _sys(ctx, cfg):
    Z = cfg["Z"]
    sysm = Z if isinstance(Z[0], list) else [Z]
    lead = cfg.get("lead", [len(sysm)] if isinstance(Z[0], list) else [])
    n = len(sysm[0])
    S = C.system(ctx, dict(cfg, Z=sysm))
    return sysm, lead, n, S


def _cn(ctx, cfg, sysm, lead, n, num, pos):
    """(function or None, values[b][i])."""
    nb = len(sysm)
    if cfg.get("cn") == "sym":
        v = [[ctx.real(f"cn{b}_{i}", 0, 8) if sysm[b][i] else ctx.lit(0) for i in range(n)] for b in range(nb)]
    elif cfg.get("cn") == "num":
        v = [[ctx.lit([0.9, 1.7, 3.4, 2.8, 0.2, 4.1][(i + b) % 6]) if sysm[b][i] else ctx.lit(0) for i in range(n)] for b in range(nb)]
    else:
        from tad_mctc.ncoord import cn_d4

        e = ctx.entries(cn_d4(num, pos))
        return None, [e[b * n : (b + 1) * n] for b in range(nb)]
    t = ctx.tensor(v).reshape(*lead, n)
    return (lambda numbers, positions, **k: t), v


def energy(ctx, cfg):
    import tad_dftd4 as d4
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4, DispD4Exact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm
    from tad_dftd4.model import D4Model, D4SModel

    sysm, lead, n, S = _sys(ctx, cfg)
    nb = len(sysm)
    num = torch.tensor(sysm).reshape(*lead, n)
    plain = cfg.get("plain", False)
    pos = ctx.tensor(S["pos"], plain=plain).reshape(*lead, n, 3)
    fn, cn = _cn(ctx, cfg, sysm, lead, n, num, pos)
    T = lambda x, *tail: None if x is None else ctx.tensor(x, plain=plain).reshape([*lead, *tail])  # noqa: E731
    Q, r4, rv = T(S["q"], n), T(S["r4r2"], n), T(S["rvdw"], n, n)
    chg = [0.0] * nb if S["charge"] is None else S["charge"]
    chg = ctx.tensor(chg).reshape(lead if (not lead or (len(lead) == 1 and nb > 1)) and not cfg.get("col") else [*lead, 1])
    if cfg.get("chargeform") is not None:
        chg = cfg["chargeform"]
    par = C.tparams(ctx, S["par"], plain=plain)
    route, mk, kind = cfg.get("route", "dftd4"), cfg.get("model", "d4"), cfg.get("damping", "rational")
    kw = {k: v for k, v in dict(q=Q, r4r2=r4, rvdw=rv).items() if v is not None}
    mkw = cfg.get("model_kwargs", {})
    model, scale = mk, None
    if cfg.get("c6scale"):
        scale = ctx.real("c6scale", 0.5, 2)
        mkw = dict(mkw, rc6=C.given_rc6(ctx, sysm, lead, scale, **{("ref" if k == "ref_charges" else k): v for k, v in mkw.items() if k != "wf"}))
    if cfg.get("instance"):
        model = {"d4": D4Model, "d4s": D4SModel}[mk](num, dtype=C.DT, **mkw)
    if cfg.get("c6min"):
        # a convex combination of positive reference values times charge scaling
        for b in range(nb):
            c6, _ = C.c6_table(ctx, sysm[b], cn[b], [ctx.lit(0)] * n, mk)
            for i in range(n):
                for j in range(i + 1, n):
                    for k in range(j + 1, n):
                        ctx.assume_le(ctx.lit(1e-9), c6[i][j] * c6[j][k] * c6[i][k])
    count = cfg.get("count")
    if count:
        import tad_mctc.ncoord as N

        f = getattr(N, count)
        v = ctx.entries(getattr(N, cfg.get("cnf", "cn_d4"))(num, pos, counting_function=f))
        cn = [v[b * n : (b + 1) * n] for b in range(nb)]
    ckw = {} if fn is None else ({"cn_function": fn} if route == "dftd4" else {"cn_fn": fn})
    if count and route == "dftd4":
        ckw = {"counting_function": f, **({"cn_function": getattr(N, cfg["cnf"])} if "cnf" in cfg else {})}
    elif count:
        ckw = {"cn_fn_kwargs": {"counting_function": f}, **({"cn_fn": getattr(N, cfg["cnf"])} if "cnf" in cfg else {})}
    if S["cut"] is not None:
        from tad_dftd4.cutoff import Cutoff

        kw["cutoff"] = Cutoff(**{k: ctx.tensor(v) for k, v in S["cut"].items()}, dtype=C.DT)
    dm = C.damping(kind)
    if route == "dftd4":
        e = d4.dftd4(num, pos, chg, par, model=model, damping_function=dm, **ckw, **kw)
    else:
        a = dict(model=model, dtype=C.DT, **ckw)
        if mkw and not cfg.get("instance"):
            a["model_kwargs"] = dict(mkw)
        if route == "manual":
            d = Disp(**a)
            d.register(D4ATMApprox() if cfg.get("c9") != "exact" else D4ATMExact())
            d.register(TwoBodyTerm(damping_fn=dm))
        elif route == "two":
            d = Disp(**a)
            d.register(TwoBodyTerm(damping_fn=dm, charge_dependent=cfg.get("dep", True)))
        else:
            d = {"disp": DispD4, "exact": DispD4Exact}[route](**a)
        e = d.calculate(num, pos, chg, par, **kw)
    ctx.check_bool("shape", tuple(e.shape) == (*lead, n))
    ctx.check_bool("dtype", e.dtype == C.DT)
    if S["q"] is None:
        q = [ctx.lit(0)] * (nb * n) if not cfg.get("dep", True) else ctx.entries(ctx.eeq(num, pos, chg if isinstance(chg, torch.Tensor) else torch.tensor(float(chg), dtype=C.DT), torch.tensor(25.0, dtype=C.DT)))
        q = [q[b * n : (b + 1) * n] for b in range(nb)]
    else:
        q = S["q"]
    from tad_mctc.data import VDW_PAIRWISE

    want = []
    for b in range(nb):
        r = S["rvdw"][b] if S["rvdw"] is not None else None
        if r is None and kind in ("zero", "mzero"):
            vd = VDW_PAIRWISE(dtype=C.DT)
            r = [[ctx.lit(float(vd[x, y])) for y in sysm[b]] for x in sysm[b]]
        want += C.full_energy(
            ctx, sysm[b], S["pos"][b], cn[b], q[b], S["par"], model=mk, kind=kind,
            exact=route == "exact" or cfg.get("c9") == "exact", three=route != "two",
            **({} if S["cut"] is None else dict(cut2=S["cut"]["disp2"], cut3=S["cut"]["disp3"])),
            r4r2=None if S["r4r2"] is None else S["r4r2"][b], rvdw=r,
            c6scale=scale,
            **{("ref" if k == "ref_charges" else k): v for k, v in mkw.items() if k != "rc6"},
        )
    ctx.check_eq("D4 energy", e.reshape(-1), want)


def covalent(ctx, cfg):
    """Given covalent radii determine the coordination number."""
    from tad_dftd4 import dftd4

    num = torch.tensor([6, 1])
    pos = torch.tensor([[0.0, 0.0, 0.0], [0.0, 2.0, 0.1]], dtype=C.DT)
    q = ctx.tensor([ctx.real(f"q{i}", -0.5, 0.5) for i in range(2)])
    par = dict(s6=1.0, s8=0.8, s9=1.0, a1=0.4, a2=4.8)
    # radii far below the bond length: no neighbours
    e = dftd4(num, pos, 0, par, q=q, rcov=torch.full((2,), 1e-3, dtype=C.DT))
    z = dftd4(num, pos, 0, par, q=q, cn_function=lambda numbers, positions, **k: torch.zeros(2, dtype=C.DT))
    ctx.check_eq("the covalent radii have no effect", e, z)


def jobs(tier):
    J = []

    def add(fn="energy", **k):
        J.append(dict(fn=fn, cfg=k))

    num = dict(s6=1, s8=0.9, s9=1, a1=0.4, a2=4.8)
    one = [[[None, 0.3, 0.1], [2.5, -1.0, 0.4], [0.5, 2.8, -1.9]]]
    for m in ("d4", "d4s"):
        for r in ("dftd4", "disp", "exact", "manual"):
            add(route=r, model=m, Z=[6, 8, 1], grid=True)
        add(model=m, Z=[6, 8, 1], coords=one, q="num", cn="num")
        add(model=m, Z=[2, 1, 2], coords=one, q="num", fixed=num, c6min=True)
        add(model=m, Z=[6, 8, 1], coords=one, q="num", fixed=num, route="two")
        add(model=m, Z=[1, 2, 2] if m == "d4s" else [1, 1, 2], cn="sym", q="num", fixed=num, grid=True, c6min=True)
        if m == "d4":
            add(model=m, Z=[6, 8, 1], coords=one, q="num", fixed=num, route="exact")
        add(model=m, Z=[1, 2, 1], coords=one, q="num", fixed=num, route="exact")
        add(model=m, Z=[6, 1], q="num", fixed=num)
        add(model=m, Z=[6, 1], q="num", cn="sym", fixed=num, grid=True)
        add(model=m, Z=[[6, 8, 1, 0], [7, 0, 1, 1]], grid=True, q="num")
        add(model=m, Z=[[6, 8], [7, 1], [1, 0], [0, 3]], grid=True, lead=[2, 2])
        add(model=m, Z=[6, 8, 1], grid=True, overrides=True, q="num")
        for r in ("disp", "exact", "manual", "two"):
            add(model=m, Z=[6, 8, 1], grid=True, overrides=True, q="num", route=r)
            add(model=m, Z=[[6, 8, 1], [7, 1, 0]], grid=True, overrides=True, q="num", route=r, fixed=num)
        add(model=m, Z=[6, 8, 1], grid=True, overrides=True, q="num", route="manual", c9="exact")
        add(model=m, Z=[6, 8, 1], grid=True, instance=True)
        add(model=m, Z=[6, 8, 1], grid=True, instance=True, route="disp", model_kwargs={"ref_charges": "gfn2"})
        add(model=m, Z=[6, 8, 1], grid=True, q="none", fixed=num)
        add(model=m, Z=[[6, 8, 0], [7, 1, 1]], grid=True, q="none", charge=True, fixed=num, route="disp")
        add(model=m, Z=[6, 8], q="none", chargeform=1, fixed=num)
        add(model=m, Z=[[6, 8, 0], [7, 1, 1]], grid=True, q="none", charge=True, fixed=num, col=True)
        add(model=m, Z=[6, 8], q="none", chargeform=-2.0, fixed=num, route="disp")
        for d in ("zero", "mzero", "op"):
            add(model=m, Z=[6, 8, 1], grid=True, damping=d, route="two")
            add(model=m, Z=[[6, 8, 0], [7, 1, 17]], grid=True, damping=d, route="two", overrides=True, q="num", fixed=dict(alp=14, bet=0.3, rs6=1.2, rs8=0.9))
        add(model=m, Z=[6, 8, 1], grid=True, damping="op", fixed=dict(bet=0.25))
        for d in ("zero", "mzero", "op"):
            fd = dict(alp=14, bet=0.3, rs6=1.2, rs8=0.9)
            ab = dict(plus=("a1", "a2"))
            for r in ("dftd4", "manual"):
                add(model=m, Z=[[6, 8, 0], [7, 1, 17]], grid=True, damping=d, route=r, overrides=True, q="num", fixed=fd, **ab)
            add(model=m, Z=[6, 8, 1], grid=True, damping=d, route="dftd4", q="num", fixed=fd, **ab)
        for r in ("dftd4", "disp", "exact"):
            add(model=m, Z=[6, 8, 1], grid=True, q="num", count="exp_count", route=r)
            add(model=m, Z=[[6, 8, 0], [7, 1, 1]], grid=True, q="num", count="gfn2_count", cnf="cn_d3", route=r, fixed=num)
        add(model=m, Z=[(11 * i) % 100 + 1 for i in range(18)], grid=True, plain=True, q="num", fixed=dict(a1=0.4, a2=4.8))
        add(model=m, Z=[(11 * i) % 100 + 1 for i in range(60)], grid=True, plain=True, q="num", fixed=dict(a1=0.4, a2=4.8), route="two")
        for r in ("disp", "exact", "manual", "two"):
            add(model=m, Z=[6, 8, 1], grid=True, route=r, c6scale=True)
        add(model=m, Z=[6, 8, 1], grid=True, instance=True, c6scale=True)
        add(model=m, Z=[[6, 8, 0], [7, 1, 1]], grid=True, route="disp", c6scale=True, q="num", model_kwargs={"ref_charges": "gfn2"})
        add(model=m, Z=[6], grid=True)
        add(model=m, Z=[[79], [0], [1]], grid=True)
        add(model=m, Z=[92, 103, 87], grid=True, q="num")
        add(model=m, Z=[26, 3, 57, 17, 82], grid=True, q="num", fixed=num)
        add(model=m, Z=[8, 6, 1], grid=True, route="two", dep=False, q="none", cn="num")
        add(model=m, Z=[8, 6, 1], grid=True, route="disp", model_kwargs={"ga": 2.5, "gc": 1.5, "wf": 4.0} if m == "d4" else {"ga": 2.5, "gc": 1.5})
        add(model=m, Z=[8, 6, 1], grid=True, route="manual", c9="exact", model_kwargs={"ref_charges": "gfn2"})
        add(model=m, Z=[[6, 8, 1], [1, 7, 9], [0, 16, 2], [2, 10, 0]], lead=[2, 2], grid=True, q="num", route="exact", fixed=num)
        add(model=m, Z=list(range(1, 104)), grid=True, plain=True, q="num", fixed=dict(a1=0.4, a2=4.8), route="two")
        add(model=m, Z=[6, 8], q="none", chargeform=0.5, fixed=num)
        add(model=m, Z=[6, 8, 1], q="none", chargeform=-0.25, fixed=num, route="disp", grid=True)
        add(model=m, Z=[6, 8], q="none", chargeform=7, fixed=num, grid=True)
        for r in ("dftd4", "disp", "exact", "two"):
            add(route=r, model=m, Z=[6, 8, 1], grid=True, far=True)
            add(route=r, model=m, Z=[[6, 8, 1], [92, 0, 26]], grid=True, far=True, overrides=True, charge=True, q="none", fixed=dict(a1=0, a2=9.5))
        add(model=m, Z=[6, 1], q="num", far=True)
        add(model=m, Z=[[6, 8, 1], [9, 1, 7], [14, 17, 3]], grid=True, q="num")
        add(model=m, Z=[8, 6, 1], grid=True, route="exact", model_kwargs={"ga": 2.5, "gc": 1.5, "ref_charges": "gfn2"})
        add(model=m, Z=[[8, 6, 1], [1, 0, 3]], grid=True, q="num", instance=True, model_kwargs={"ga": 2.5, "gc": 1.5})
        for d in ("zero", "mzero", "op"):
            add(model=m, Z=[6, 8, 1], grid=True, damping=d, route="two", far=True)
    for k in C.run_options(tier, routes=("dftd4", "disp", "exact", "manual", "two"), c9=[C.NO, "exact"], col=[C.NO, True], cn=[C.NO, "num"]):
        if k["q"] == "eeq":
            k["q"] = "none"
        if k["route"] != "manual":
            k.pop("c9", None)
        add(**dict(k, fixed={"alp": 14, "bet": 0.5} if k["damping"] in ("mzero", "op", "zero") else {}))
    if tier == "thorough":
        for a in range(1, 103, 3):
            for r in ("dftd4", "exact"):
                add(model="d4" if a % 2 else "d4s", Z=[a, a + 1, (a * 37) % 103 + 1], grid=True, route=r, fixed=num)
        for m in ("d4", "d4s"):
            add(model=m, Z=[6, 8, 1, 7, 9, 16], grid=True, q="num", fixed=num)
            add(model=m, Z=[2, 10, 18], coords=one, q="num", fixed=num, c6min=True)
            add(model=m, Z=[6, 8, 1, 1], coords=[C.grid(4)[:3] + [[None, None, None]]], q="num", fixed=num, route="two")
    add("covalent")
    return J
