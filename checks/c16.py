"""C16: precision follows the input, whatever torch's default dtype is."""

import contextlib

import torch

from . import common as C

EXPLANATION = """
Energies, properties, models, damping functions and terms run on symbolic
inputs of single and double precision, under a process default dtype of
float32 and of float64, and after earlier calls in the other precision.
Conversions to a smaller type are opaque rounding terms and constants carry
their stored value, so z3 shows that no double-precision result passes through
a narrower type: it equals the published energy for every value, the result
has the dtype of the positions, and the default dtype does not matter.
"""
ASSUMPTIONS = ["distances >= 0.5 bohr", "rounding of each arithmetic operation inside one precision is not modelled; a conversion to a narrower type is"]

F32, F64 = torch.float32, torch.float64
DTS = {"f32": F32, "f64": F64}


@contextlib.contextmanager
def default(dt):
    old = torch.get_default_dtype()
    torch.set_default_dtype(dt)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


def rtol(dt):
    return 2e-11 if dt == F64 else 1e-8


def _sys(ctx, cfg):
    Z = cfg["Z"]
    sysm = Z if isinstance(Z[0], list) else [Z]
    lead = cfg.get("lead", [len(sysm)] if isinstance(Z[0], list) else [])
    S = C.system(ctx, dict(cfg, Z=sysm))
    if cfg.get("c6scale"):
        S["c6scale"] = ctx.real("c6scale", 0.5, 2)
    return sysm, lead, len(sysm[0]), S


def _call(ctx, cfg, sysm, lead, n, S, dt):
    """One evaluation in precision dt; list of results."""
    import tad_dftd4 as d4
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d3 import DispD3BJ, DispD3Zero
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm
    from tad_dftd4.model import D4Model, D4SModel

    nb = len(sysm)
    idt = {"i32": torch.int32}.get(cfg.get("ints"), torch.int64)
    num = torch.tensor(sysm, dtype=idt).reshape(*lead, n)
    T = lambda x, *tail: None if x is None else ctx.tensor(x, dt).reshape([*lead, *tail])  # noqa: E731
    pos = T(S["pos"], n, 3)
    kw = {k: v for k, v in dict(q=T(S["q"], n), r4r2=T(S["r4r2"], n), rvdw=T(S["rvdw"], n, n)).items() if v is not None}
    cd = {"int": torch.int64, "f32": F32, "f64": F64}[cfg.get("cdt", "f64")]
    chg = torch.zeros([] if not lead else (lead if nb > 1 and len(lead) == 1 else [*lead, 1]), dtype=cd)
    if cfg.get("pform") == "float":
        par = {k: float(v) for k, v in cfg["fixed"].items() if k in S["par"] or cfg.get("route", "").startswith("d3")}
    else:
        pdt = DTS[cfg["pform"]] if cfg.get("pform") else dt
        par = C.tparams(ctx, S["par"], pdt)
    route, m = cfg.get("route", "dftd4"), cfg.get("model", "d4")
    if S["cut"] is not None:
        kw["cutoff"] = Cutoff(**{k: ctx.tensor(v, dt) for k, v in S["cut"].items()}, dtype=dt)
    mk = cfg.get("model_kwargs", {})
    if "c6scale" in S:
        mk = dict(mk, rc6=C.given_rc6(ctx, sysm, lead, S["c6scale"]).to(dt))
    if cfg.get("instance"):
        m = {"d4": D4Model, "d4s": D4SModel}[m](num, dtype=dt, **mk)
    dm = C.damping(cfg.get("damping", "rational"))
    if route == "props":
        kw.pop("q", None)
        return num, pos, list(d4.get_properties(num, pos, chg, **kw))
    if route == "dftd4":
        return num, pos, [d4.dftd4(num, pos, chg, par, model=m, damping_function=dm, **kw)]
    if route == "two":
        d = Disp(model=m, dtype=dt, **({"model_kwargs": dict(mk)} if mk and isinstance(m, str) else {}))
        d.register(TwoBodyTerm(damping_fn=dm))
    else:
        d = {"disp": DispD4, "exact": DispD4Exact, "d3bj": DispD3BJ, "d3zero": DispD3Zero}[route](model=m, dtype=dt, **({"model_kwargs": dict(mk)} if mk and isinstance(m, str) else {}))
    return num, pos, [d.calculate(num, pos, chg, par, **kw)]


def _oracle(ctx, cfg, sysm, lead, n, S):
    """Published energy from exact tables (double precision inputs)."""
    from tad_mctc.data import VDW_PAIRWISE
    from tad_mctc.ncoord import cn_d4

    num = torch.tensor(sysm).reshape(*lead, n)
    pos = ctx.tensor(S["pos"]).reshape(*lead, n, 3)
    cn = ctx.entries(cn_d4(num, pos))
    kind = cfg.get("damping", "rational")
    q = S["q"]
    if q is None:
        e = ctx.entries(ctx.eeq(num, pos, torch.zeros(lead[:1] if len(lead) == 1 and lead[0] > 1 else ([*lead, 1] if lead else []), dtype=C.DT), torch.tensor(25.0, dtype=C.DT)))
        q = [e[b * n : b * n + n] for b in range(len(sysm))]
    kw = {("ref" if k == "ref_charges" else k): v for k, v in cfg.get("model_kwargs", {}).items()}
    if S["cut"] is not None:
        kw.update(cut2=S["cut"]["disp2"], cut3=S["cut"]["disp3"])
    out = []
    for b in range(len(sysm)):
        r = S["rvdw"][b] if S["rvdw"] is not None else None
        if r is None and kind in ("zero", "mzero"):
            vd = VDW_PAIRWISE(dtype=C.DT)
            r = [[ctx.lit(float(vd[x, y])) for y in sysm[b]] for x in sysm[b]]
        out += C.full_energy(
            ctx, sysm[b], S["pos"][b], cn[b * n : b * n + n], q[b], S["par"], model=cfg.get("model", "d4"), kind=kind,
            exact=cfg.get("route") == "exact", three=cfg.get("route") != "two",
            r4r2=None if S["r4r2"] is None else S["r4r2"][b], rvdw=r, c6scale=S.get("c6scale"), **kw,
        )
    return out


def dtype(ctx, cfg):
    """Result dtype, default-dtype independence, no narrowing."""
    sysm, lead, n, S = _sys(ctx, cfg)
    dt = DTS[cfg["dt"]]
    res = {}
    for dd in ("f32", "f64"):
        with default(DTS[dd]):
            num, pos, r = _call(ctx, cfg, sysm, lead, n, S, dt)
            ctx.check_bool(f"default {dd} unchanged", torch.get_default_dtype() == DTS[dd])
        ctx.check_bool(f"dtype of the result (default {dd})", all(x.dtype == dt for x in r))
        res[dd] = r
    for k, (x, y) in enumerate(zip(res["f32"], res["f64"])):
        ctx.check_eq(f"result {k} does not depend on the default dtype", x, y, rtol=rtol(dt))
    if dt == F64 and cfg.get("route", "dftd4") in ("dftd4", "disp", "exact", "two"):
        ctx.check_eq("double precision energy", res["f32"][0].reshape(-1), _oracle(ctx, cfg, sysm, lead, n, S), rtol=1e-10)


def history(ctx, cfg):
    """An earlier call in the other precision has no effect."""
    sysm, lead, n, S = _sys(ctx, cfg)
    seq = cfg["seq"]
    first = {}
    for k, (a, dd) in enumerate(seq):
        with default(DTS[dd]):
            _, _, r = _call(ctx, cfg, sysm, lead, n, S, DTS[a])
        ctx.check_bool(f"call {k}: dtype", all(x.dtype == DTS[a] for x in r))
        if a == "f64" and cfg.get("route", "dftd4") != "props":
            ctx.check_eq(f"call {k}: double precision energy", r[0].reshape(-1), _oracle(ctx, cfg, sysm, lead, n, S), rtol=1e-10)
        if a in first:
            for x, y in zip(r, first[a]):
                ctx.check_eq(f"call {k}: same as before", x, y, rtol=rtol(DTS[a]))
        else:
            first[a] = r


def model(ctx, cfg):
    """Models: every quantity in the dtype of the model."""
    from tad_dftd4.model import D4Model, D4SModel

    Z = cfg["Z"]
    n = len(Z)
    num = torch.tensor(Z)
    dt = DTS[cfg["dt"]]
    cn = [ctx.real(f"cn{i}", 0, 8) for i in range(n)]
    qb = cfg.get("qb", 0.5)
    q = [ctx.real(f"q{i}", -qb, qb) for i in range(n)]
    out = {}
    for dd in ("f32", "f64"):
        with default(DTS[dd]):
            m = {"d4": D4Model, "d4s": D4SModel}[cfg.get("model", "d4")](num, dtype=dt, **cfg.get("kw", {}))
            gw, dq = m.weight_references(ctx.tensor(cn, dt), ctx.tensor(q, dt), with_dgwdq=True)
            r = [m.wf, m.rc6, gw, dq, m.get_atomic_c6(gw), m.get_weighted_pols(gw), m.weight_references(), m.weight_references(cn=ctx.tensor(cn, dt)), m.weight_references(q=ctx.tensor(q, dt))]
            if cfg.get("model", "d4") == "d4":
                r.append(m.get_polarizabilities(gw))
        ctx.check_bool(f"dtypes (default {dd})", all(x.dtype == dt for x in r))
        out[dd] = r
    for k, (x, y) in enumerate(zip(out["f32"], out["f64"])):
        ctx.check_eq(f"quantity {k} does not depend on the default dtype", x, y, rtol=rtol(dt))
    if dt == F64:
        c6, w = C.c6_table(ctx, Z, cn, q, cfg.get("model", "d4"), **{("ref" if k == "ref_charges" else k): v for k, v in cfg.get("kw", {}).items()})
        ctx.check_eq("double precision C6", out["f32"][4], c6, rtol=1e-10)


def damping(ctx, cfg):
    dt = DTS[cfg["dt"]]
    kind = cfg["kind"]
    p = C.params(ctx, list(C.NEEDS[kind]), cfg.get("fixed"))
    r = ctx.real("r", 1, 20)
    rad = ctx.real("rad", 2, 60 if C.radius_type(kind) == "r4r2" else 7)
    for order in (6, 8):
        out = {}
        for dd in ("f32", "f64"):
            with default(DTS[dd]):
                f = C.damping(kind)
                a = f(ctx.tensor([[1.0, r], [r, 1.0]], dt), ctx.tensor([[rad, rad], [rad, rad]], dt), order, s8=1.0, **{x: ctx.tensor(v, dt) for x, v in p.items()})
            ctx.check_bool(f"order {order}: dtype (default {dd})", a.dtype == dt)
            out[dd] = a
        ctx.check_eq(f"order {order}: default dtype", ctx.entries(out["f32"])[1:2], ctx.entries(out["f64"])[1:2], rtol=rtol(dt))
        if dt == F64:
            ctx.check_eq(f"order {order}: double precision", ctx.entries(out["f32"])[1:2], [C.damp(ctx, kind, order, r, rad, p)], rtol=1e-10)


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    par = dict(s6=1, s8=0.9, s9=1, a1=0.4, a2=4.8)
    zp = dict(s6=1, s8=0.9, s9=1, rs6=1.2, rs8=0.9, rs9=1.3, alp=14, bet=0.3)
    for dt in ("f64", "f32"):
        for m in ("d4", "d4s"):
            for r in ("dftd4", "disp", "exact"):
                add("dtype", dt=dt, route=r, model=m, Z=[6, 8, 1], grid=True)
            add("dtype", dt=dt, model=m, Z=[[6, 8, 0], [7, 1, 1]], grid=True, q="num")
            add("dtype", dt=dt, model=m, Z=[6, 8, 1], grid=True, instance=True, ints="i32")
            add("dtype", dt=dt, model=m, Z=[6, 1], q="num", fixed=par)
            for d in ("zero", "mzero", "op"):
                add("dtype", dt=dt, route="two", model=m, Z=[6, 8, 17], grid=True, damping=d, fixed=zp)
            add("dtype", dt=dt, model=m, Z=[6, 8, 1], grid=True, overrides=True, q="num")
            add("history", model=m, Z=[6, 8, 1], grid=True, seq=[["f32", "f32"], ["f64", "f32"], ["f32", "f64"], ["f64", "f64"]])
            add("history", model=m, Z=[6, 8, 1], grid=True, seq=[["f64", "f64"], ["f32", "f32"], ["f64", "f32"]], route="exact")
            for r in ("disp", "exact", "two"):
                add("dtype", dt=dt, model=m, Z=[6, 8, 1], grid=True, c6scale=True, route=r)
            add("dtype", dt=dt, model=m, Z=[[6, 8, 0], [7, 1, 1]], grid=True, c6scale=True, instance=True, q="num")
            add("model", dt=dt, model=m, Z=[6, 1])
            add("model", dt=dt, model=m, Z=[1, 3], qb=9)
            add("model", dt=dt, model=m, Z=[6], qb=9)
            add("model", dt=dt, model=m, Z=[7, 17], kw={"ref_charges": "gfn2"})
        for cd in ("int", "f32", "f64"):
            add("dtype", dt=dt, Z=[6, 8, 1], grid=True, cdt=cd)
            add("dtype", dt=dt, Z=[[6, 8, 0], [7, 1, 1]], grid=True, cdt=cd, route="disp", q="num")
            add("dtype", dt=dt, Z=[6, 8, 1], grid=True, cdt=cd, route="props")
        for pf in ("float", "f64", "f32"):
            if not (pf == "f32" and dt == "f64"):
                add("dtype", dt=dt, Z=[6, 8, 1], grid=True, pform=pf, fixed=par)
        add("dtype", dt=dt, Z=[[6, 8, 0], [7, 1, 1]], grid=True, route="props")
        add("dtype", dt=dt, Z=[6, 8, 1], grid=True, route="d3bj", q="none", pform="float", fixed=dict(par, alp=14, rs9=1.3))
        add("dtype", dt=dt, Z=[6, 8, 1], grid=True, route="d3zero", q="none", pform="float", fixed=zp)
        for k in ("rational", "zero", "mzero", "op"):
            add("damping", dt=dt, kind=k)
    add("history", route="props", Z=[6, 8, 1], grid=True, seq=[["f32", "f32"], ["f64", "f32"], ["f32", "f64"], ["f64", "f64"]])
    # every pair of options
    opt = dict(
        dt=["f64", "f32"], route=["dftd4", "disp", "exact", "two"], shape=C.SHAPES, model=["d4", "d4s"], q=["sym", "num", "eeq"], damping=["rational", "op", "zero", "mzero"],
        plus=[(), ("s10",)], cutoff=[C.NO, True], overrides=[C.NO, True], instance=[C.NO, True], ints=[C.NO, "i32"], cdt=["f64", "f32", "int"],
        pform=[C.NO, "float", "f64"], model_kwargs=[C.NO, dict(ref_charges="gfn2"), dict(ga=2.5, gc=1.5)],
    )

    def ok(c):
        if c["damping"] in ("zero", "mzero") and c["route"] != "two":
            return False
        if c["damping"] == "op" and c["route"] in ("disp", "exact"):
            return False
        if c["route"] == "dftd4" and c["model_kwargs"] is not C.NO and c["instance"] is C.NO:
            return False
        return not (c["damping"] != "rational" and c["plus"])

    for k in C.options(opt, ok, 3 if tier == "thorough" else 2):
        lead, zs = k.pop("shape")
        k["plus"] = list(k["plus"])
        if k.get("pform") == "float":
            k["fixed"] = dict(zp, **par, **({"s10": 0.7} if k["plus"] else {}))
        add("dtype", Z=zs, lead=lead, grid=True, **k)
    if tier == "thorough":
        for a in range(1, 103, 3):
            add("dtype", dt="f64", model="d4" if a % 2 else "d4s", Z=[a, a + 1, (a * 37) % 103 + 1], grid=True, fixed=par, route="exact" if a % 4 else "dftd4")
    return J
