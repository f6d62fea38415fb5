"""C12: cutoffs are honoured, each by its own term, and make the energy local."""

import torch

from . import common as C

EXPLANATION = """
dftd4, DispD4, DispD4Exact and get_properties run with symbolic two-body,
three-body and EEQ cutoffs on symbolic or fixed geometries; z3 shows that the
energy is the two-body law cut at disp2 plus the three-body law cut at disp3
(no other dependence on either), that cn_eeq is the cutoff handed to the charge
solver, that int / float / tensor cutoffs agree and the defaults are 60 / 40 /
25 bohr, and that two fragments further apart than both cutoffs contribute
independently.
"""
ASSUMPTIONS = [
    "distances >= 0.5 bohr; cutoffs between 1 and 70 bohr (far: 0 to 500)",
    "locality: coordination numbers and charges given (EEQ and CN have tails of their own)",
]


def _fixed(ctx, n):
    par = dict(s6=1.0, s8=0.9, s9=1.0, a1=0.4, a2=4.8)
    q = [ctx.lit([0.1, -0.2, 0.15, -0.05, 0.3, 0.02][i]) for i in range(n)]
    cn = [[0.9, 1.7, 0.4, 2.8, 1.0, 3.1][i] for i in range(n)]
    return par, q, cn


def wiring(ctx, cfg):
    from tad_dftd4 import dftd4
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4, DispD4Exact
    from tad_dftd4.dispersion.threebody import get_atm_dispersion
    from tad_dftd4.dispersion.twobody import dispersion2
    from tad_dftd4.model import D4Model, D4SModel

    sysm = cfg["Z"] if isinstance(cfg["Z"][0], list) else [cfg["Z"]]
    n = len(sysm[0])
    lead = cfg.get("lead", [])
    num = torch.tensor(sysm).reshape(*lead, n)
    S = C.system(ctx, dict(Z=sysm, grid=cfg.get("grid"), q="none", coords=cfg.get("coords"), box=cfg.get("box", 6.0)))
    par, q, cnv = _fixed(ctx, n)
    pos = ctx.tensor(S["pos"]).reshape(*lead, n, 3)
    Q = ctx.tensor([[v if z else ctx.lit(0) for v, z in zip(q, r)] for r in sysm]).reshape(*lead, n)
    CN = torch.tensor([[v if z else 0.0 for v, z in zip(cnv, r)] for r in sysm], dtype=C.DT).reshape(*lead, n)
    rng = cfg.get("rng", {})
    cuts = {k: ctx.real(f"cut_{k}", *rng.get(k, C.far(cfg, "cut", (1, 70)))) for k in cfg.get("given", ("disp2", "disp3"))}
    eff = dict(disp2=ctx.lit(60), disp3=ctx.lit(40))
    eff.update(cuts)
    kw = {k: ctx.tensor(v) for k, v in cuts.items()}
    if cfg.get("plaincut"):
        for k, v in cfg["plaincut"].items():
            kw[k] = v
            eff[k] = ctx.lit(v)
    cut = Cutoff(**kw, dtype=C.DT) if kw or cfg.get("object") else None
    cnf = lambda numbers, positions, **k: CN  # noqa: E731
    chg = torch.zeros((*lead, 1) if lead else (), dtype=C.DT)
    route = cfg.get("route", "dftd4")
    mk = cfg.get("model", "d4")
    if route == "dftd4":
        e = dftd4(num, pos, chg, par, q=Q, cn_function=cnf, cutoff=cut, model=mk)
    else:
        e = {"disp": DispD4, "exact": DispD4Exact}[route](model=mk, cn_fn=cnf, dtype=C.DT).calculate(num, pos, chg, par, q=Q, cutoff=cut)
    m = {"d4": D4Model, "d4s": D4SModel}[mk](num, dtype=C.DT)
    c6 = m.get_atomic_c6(m.weight_references(CN, Q))
    T = C.tables()
    rr = torch.tensor([[T["r4r2"][z] for z in r] for r in sysm], dtype=C.DT).reshape(*lead, n)
    e2 = dispersion2(num, pos, par, c6, rr, cutoff=ctx.tensor(eff["disp2"]))
    t3 = (D4ATMExact if route == "exact" else D4ATMApprox)()
    e3 = get_atm_dispersion(
        num, pos, t3.get_c9(m, CN, None), t3.get_radii(par, rr, None), ctx.tensor(eff["disp3"]), s9=1.0, alp=16.0
    )
    ctx.check_eq("two-body cut at disp2 plus three-body cut at disp3", e, e2 + e3)


def default2(ctx, cfg):
    """The two-body function without a cutoff cuts at 60 bohr."""
    from tad_dftd4.dispersion.twobody import dispersion2

    n = len(cfg["Z"])
    num = torch.tensor(cfg["Z"])
    S = C.system(ctx, dict(Z=[cfg["Z"]], q="none", coords=cfg.get("coords"), box=cfg["box"]))
    pos = ctx.tensor(S["pos"]).reshape(n, 3)
    c6 = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            c6[i][j] = c6[j][i] = ctx.real(f"c6_{i}{j}", 0, 500)
    rr = torch.tensor([C.tables()["r4r2"][z] for z in cfg["Z"]], dtype=C.DT)
    par = dict(s6=1.0, s8=0.9, a1=0.4, a2=4.8, **({"s10": 0.6} if cfg.get("s10") else {}))
    kw = {"as_matrix": True} if cfg.get("matrix") else {}
    a = (num, pos, par, ctx.tensor(c6), rr)
    ctx.check_eq("default two-body cutoff", dispersion2(*a, **kw), dispersion2(*a, cutoff=torch.tensor(60.0, dtype=C.DT), **kw))


def eeq(ctx, cfg):
    """cn_eeq is what the charge solver gets; the other cutoffs are not."""
    from tad_dftd4 import dftd4, get_properties
    from tad_dftd4.cutoff import Cutoff

    Z = cfg["Z"]
    nb, n = len(Z), len(Z[0])
    num = torch.tensor(Z)
    S = C.system(ctx, dict(Z=Z, grid=cfg.get("grid"), coords=cfg.get("coords"), q="none", charge=True))
    pos = ctx.tensor(S["pos"])
    chg = ctx.tensor(S["charge"])
    rng = cfg.get("rng", {})
    cuts = {k: ctx.real(f"cut_{k}", *rng.get(k, (1, 70))) for k in cfg.get("given", ("disp2", "disp3", "cn", "cn_eeq"))}
    eff = cuts.get("cn_eeq", ctx.lit(25))
    cut = Cutoff(**{k: ctx.tensor(v) for k, v in cuts.items()}, dtype=C.DT) if cuts else None
    q = ctx.eeq(num, pos, chg, ctx.tensor(eff))
    if cfg.get("props"):
        r = get_properties(num, pos, chg, cutoff=cut)
        ctx.check_eq("charges of get_properties", r[1], q)
        return
    par = dict(s6=1.0, s8=0.9, s9=1.0, a1=0.4, a2=4.8)
    mk = cfg.get("model", "d4")
    a = dftd4(num, pos, chg, par, cutoff=cut, model=mk)
    b = dftd4(num, pos, chg, par, cutoff=cut, q=q, model=mk)
    ctx.check_eq("energy with solver charges", a, b)


def forms(ctx, cfg):
    """int, float and tensor cutoffs; defaults."""
    from tad_dftd4 import defaults, dftd4
    from tad_dftd4.cutoff import Cutoff

    Z = [6, 8, 1]
    num = torch.tensor(Z)
    S = C.system(ctx, dict(Z=[Z], q="none", coords=[[[None, 0, 0], [3, 4.0, 0], [0, 0, 5.5]]]))
    pos = ctx.tensor(S["pos"][0])
    par, q, cnv = _fixed(ctx, 3)
    Q = ctx.tensor(q)
    chg = torch.tensor(0.0, dtype=C.DT)

    def run(**k):
        return dftd4(num, pos, chg, par, q=Q, cutoff=Cutoff(**k, dtype=C.DT) if k else None)

    t = lambda v: torch.tensor(v, dtype=C.DT)  # noqa: E731
    ref = run(disp2=t(6.0), disp3=t(7.0))
    ctx.check_eq("int cutoffs", run(disp2=6, disp3=7), ref)
    ctx.check_eq("float cutoffs", run(disp2=6.0, disp3=7.0), ref)
    ctx.check_eq("mixed cutoffs", run(disp2=t(6.0), disp3=7), ref)
    ctx.check_eq("default cutoffs", run(), run(disp2=60, disp3=40, cn=30, cn_eeq=25))
    c = Cutoff(dtype=C.DT)
    ctx.check_eq("Cutoff()", [c.disp2, c.disp3, c.cn, c.cn_eeq], [ctx.lit(v) for v in (60, 40, 30, 25)])
    d = Cutoff(1, 2, 3, 4, dtype=C.DT)
    ctx.check_eq("positional", [d.disp2, d.disp3, d.cn, d.cn_eeq], [ctx.lit(v) for v in (1, 2, 3, 4)])
    ctx.check_bool("dtype", all(x.dtype == C.DT for x in (c.disp2, c.disp3, c.cn, c.cn_eeq, d.disp2, d.cn_eeq)))


def given(ctx, cfg):
    """Each cutoff is kept as given: int, float or tensor, whatever the others are."""
    from tad_dftd4.cutoff import Cutoff

    names = ("disp2", "disp3", "cn", "cn_eeq")
    default = dict(disp2=60.0, disp3=40.0, cn=30.0, cn_eeq=25.0)
    syms = {k: ctx.real(f"cut_{k}", 0, 500) for k in names}
    if cfg.get("ints"):
        forms = [C.NO, 0, 3, 80, 700]
    else:
        forms = [C.NO, "sym", 0, 2, 90, 3.5, 250.0, "t32", "tint"]
    for row in C.options({k: forms for k in names}, t=cfg.get("t", 2)):
        kw, want = {}, {}
        for k in names:
            v = row.get(k, C.NO)
            if v is C.NO:
                want[k] = ctx.lit(default[k])
            elif v == "sym":
                kw[k], want[k] = ctx.tensor(syms[k]), syms[k]
            elif v == "t32":
                kw[k], want[k] = torch.tensor(7.5, dtype=torch.float32), ctx.lit(7.5)
            elif v == "tint":
                kw[k], want[k] = torch.tensor(9), ctx.lit(9)
            else:
                kw[k], want[k] = v, ctx.lit(v)
        for dt in (torch.float64, torch.float32):
            c = Cutoff(**kw, dtype=dt)
            for k in names:
                t = getattr(c, k)
                ctx.check_bool(f"{k} of {row}: dtype", t.dtype == dt and t.ndim == 0)
                if dt == torch.float64 or not isinstance(kw.get(k), torch.Tensor):
                    ctx.check_eq(f"{k} of {row}", t.reshape(1), [want[k]])


def local(ctx, cfg):
    """Fragments beyond the cutoffs do not see each other."""
    from tad_dftd4 import dftd4
    from tad_dftd4.cutoff import Cutoff
    from tad_dftd4.dispersion.d4 import DispD4Exact

    A, B = cfg["A"], cfg["B"]
    n, m = len(A), len(B)
    SA = C.system(ctx, dict(Z=[A], q="none", grid=cfg.get("grid")))["pos"][0]
    gb = C.grid(m)
    SB = [[ctx.lit(gb[i][0]) + ctx.real("dx", 30, 90), ctx.lit(gb[i][1]), ctx.lit(gb[i][2])] for i in range(m)]
    cuts = {k: ctx.real(f"cut_{k}", 1, 12) for k in ("disp2", "disp3")}
    par, q, cnv = _fixed(ctx, n + m)
    Z = A + B
    num = torch.tensor(Z)

    def run(idx):
        pts = (SA + SB)
        cn = torch.tensor([cnv[i] for i in idx], dtype=C.DT)
        f = lambda numbers, positions, **k: cn  # noqa: E731
        a = (num[idx], ctx.tensor([pts[i] for i in idx]), torch.tensor(0.0, dtype=C.DT), par)
        kw = dict(q=ctx.tensor([q[i] for i in idx]), cutoff=Cutoff(**{k: ctx.tensor(v) for k, v in cuts.items()}, dtype=C.DT))
        if cfg.get("route") == "exact":
            return DispD4Exact(cn_fn=f, dtype=C.DT).calculate(*a, **kw)
        return dftd4(*a, cn_function=f, **kw)

    whole = ctx.entries(run(list(range(n + m))))
    a = ctx.entries(run(list(range(n))))
    b = ctx.entries(run(list(range(n, n + m))))
    ctx.check_eq("fragments", whole, a + b)


def cn_cutoff(ctx, cfg):
    """Cutoff.cn bounds the range of the coordination number."""
    from tad_dftd4 import dftd4
    from tad_dftd4.cutoff import Cutoff

    Z = [6, 1]
    num = torch.tensor(Z)
    S = C.system(ctx, dict(Z=[Z], q="none", coords=[[[None, 0, 0], [0, 2.0, 0]]]))
    pos = ctx.tensor(S["pos"][0])
    par, q, cnv = _fixed(ctx, 2)
    a = (num, pos, torch.tensor(0.0, dtype=C.DT), par)
    e = dftd4(*a, q=ctx.tensor(q), cutoff=Cutoff(cn=1.0, dtype=C.DT))
    z = dftd4(*a, q=ctx.tensor(q), cn_function=lambda numbers, positions, **k: torch.zeros(2, dtype=C.DT))
    ctx.check_eq("the coordination number cutoff has no effect", e, z)


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    lin = [[[None, 0.3, 0.1], [2.5, -1.0, 0.4], [0.5, 2.8, -1.9]]]
    for m in ("d4", "d4s"):
        for r in ("dftd4", "disp", "exact"):
            add("wiring", Z=[6, 8, 1], model=m, route=r)
            add("wiring", Z=[6, 8, 1, 26], model=m, route=r, grid=True)
    add("wiring", Z=[6, 8, 1], given=("disp2",), coords=lin)
    add("wiring", Z=[6, 8, 1], given=("disp3",), coords=lin, route="disp")
    add("wiring", Z=[6, 8, 1], given=(), coords=lin, box=80)
    add("wiring", Z=[6, 8, 1], given=(), object=True, coords=lin, box=80)
    for m in ("d4", "d4s"):
        add("eeq", Z=[[6, 8, 1], [9, 1, 0]], model=m, grid=True)
        add("eeq", Z=[[6, 8, 1], [9, 1, 0]], model=m, grid=True, given=())
        add("eeq", Z=[[6, 8, 1], [9, 1, 0]], model=m, grid=True, given=("cn_eeq",))
    # one cutoff inside the molecule, the others outside (and the reverse)
    tight = [[[0, 0, 0], [2.2, 0.1, 0], [0.1, 1.9, 0.3]], [[0, 0, 0.1], [0.2, 1.8, 0], [0, 0, 0]]]
    four = ("disp2", "disp3", "cn", "cn_eeq")
    for k in four:
        for a, b in (((1, 1.5), (40, 70)), ((40, 70), (1, 1.5))):
            for m in ("d4", "d4s", "props"):
                if m != "d4s" or k in ("cn", "cn_eeq"):
                    add("eeq", Z=[[6, 8, 1], [9, 1, 0]], coords=tight, rng={x: a if x == k else b for x in four}, **(dict(props=True) if m == "props" else dict(model=m)))
    for m in ("d4", "props"):
        add("eeq", Z=[[6, 8, 1], [9, 1, 0]], coords=tight, given=("disp2", "disp3", "cn"), rng={x: (1, 1.5) for x in four}, **(dict(props=True) if m == "props" else dict(model=m)))
    add("eeq", Z=[[6, 8, 1], [9, 1, 0]], props=True, grid=True)
    add("eeq", Z=[[6, 8, 1], [9, 1, 0]], props=True, grid=True, given=())
    add("eeq", Z=[[6, 8, 1], [9, 1, 0]], props=True, given=("disp2", "cn"))
    for k in (dict(), dict(matrix=True), dict(s10=True)):
        add("default2", Z=[6, 8], box=45, **k)
        add("default2", Z=[6, 8, 1], coords=lin, box=90, **k)
    add("forms")
    add("given")
    add("given", ints=True, t=3)
    add("local", A=[6, 1], B=[8, 1])
    add("local", A=[6, 1], B=[8, 1], route="exact")
    add("local", A=[6, 1, 7], B=[8, 1, 26], grid=True)
    add("cn_cutoff")
    # around the default values, at and near zero, far beyond any molecule
    far = [[[None, 0.3, 0.1], [2.5, -1.0, 0.4], [0.5, 2.8, -1.9]]]
    for m in ("d4", "d4s"):
        add("wiring", Z=[6, 8, 1], coords=far, box=450, far=True, model=m)
        add("wiring", Z=[6, 8, 1], coords=far, box=450, far=True, model=m, route="exact")
        add("wiring", Z=[6, 8], far=True, box=200, model=m, route="disp")
        add("wiring", Z=[6, 8, 1, 26], grid=True, far=True, model=m, rng=dict(disp2=(0, 0.9), disp3=(0, 0.9)))
        add("wiring", Z=[6, 8, 1], grid=True, given=(), plaincut=dict(disp2=0, disp3=0), model=m)
        add("wiring", Z=[6, 8, 1], coords=far, box=300, given=(), plaincut=dict(disp2=150, disp3=130.0), model=m)
        add("wiring", Z=[6, 8, 1], coords=far, box=300, given=("disp2",), plaincut=dict(disp3=0), model=m, route="disp")
        add("wiring", Z=[6, 8, 1], coords=far, box=300, given=("disp3",), plaincut=dict(disp2=7.5, cn=3.0, cn_eeq=2), model=m, route="exact")
    opt = dict(shape=C.SHAPES, route=["dftd4", "disp", "exact"], model=["d4", "d4s"], given=[("disp2", "disp3"), ("disp2",), ("disp3",), ()], far=[C.NO, True])
    for k in C.options(opt, t=2):
        lead, zs = k.pop("shape")
        add("wiring", Z=zs, lead=lead, grid=True, **k)
    if tier == "thorough":
        for m in ("d4", "d4s"):
            for r in ("dftd4", "exact"):
                add("wiring", Z=[6, 8, 1, 26, 92, 7], model=m, route=r, grid=True)
                add("wiring", Z=[6, 8, 1, 0], model=m, route=r)
        add("local", A=[6, 1, 7], B=[8, 1, 26], route="exact", grid=True)
    return J
