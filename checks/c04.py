"""C04: D4 reference weights."""

import torch

from . import common as C

EXPLANATION = """
D4Model.weight_references runs on symbolic coordination numbers and charges
(every element, both reference charge sets, changed ga/gc/wf, batches with
padding); z3 compares all seven weights of every atom with
zeta(q) * g_r / sum g, g_r = sum_k exp(-k wf (CN - CN_r)^2), zeta = exp(ga) for
a fully ionised atom, and weight 0 for references that do not exist.  The
underflow configurations model exp(x) = 0 for x <= -746 and show that the
weights then fall back to the reference with the largest coordination number,
and stay finite and normalised for every coordination number.
"""
ASSUMPTIONS = [
    "0 <= CN <= 12 (underflow configurations: up to 60), -2.5 <= q <= 2.5",
    "underflow configurations assume that no Gaussian lands in the subnormal range exp(-746)..exp(-700)",
]


def weights(ctx, cfg):
    from tad_dftd4.model import D4Model

    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    kw = {k: cfg[k] for k in ("ga", "gc", "wf") if k in cfg}
    ref = cfg.get("ref", "eeq")
    if cfg.get("wf") == "sym":
        wf = ctx.real("wf", 1, 12)
        kw["wf"] = ctx.tensor(wf)
    else:
        wf = cfg.get("wf", 6.0)
    qb = cfg.get("qb", 2.5)
    cn = [[ctx.real(f"cn{b}_{i}", 0, cfg.get("cnmax", 12)) for i in range(n)] for b in range(nb)]
    q = [[ctx.real(f"q{b}_{i}", -qb, qb) for i in range(n)] for b in range(nb)]
    num = torch.tensor(sysm)
    lead = cfg.get("lead", [nb])
    num = num.reshape(*lead, n)
    model = D4Model(num, ref_charges=ref, dtype=C.DT, **kw)
    args = {}
    if cfg.get("cn", True):
        args["cn"] = ctx.tensor(cn).reshape(*lead, n)
    if cfg.get("q", True):
        args["q"] = ctx.tensor(q).reshape(*lead, n)
    w = model.weight_references(**args)
    ctx.check_bool("shape", tuple(w.shape) == (*lead, n, 7))
    want = []
    for b in range(nb):
        for i in range(n):
            z = sysm[b][i]
            x = cn[b][i] if cfg.get("cn", True) else ctx.lit(0)
            y = q[b][i] if cfg.get("q", True) else ctx.lit(0)
            if z == 0:
                want += [ctx.lit(0)] * 7
            else:
                want += C.weights(ctx, z, x, y, wf, cfg.get("ga", 3.0), cfg.get("gc", 2.0), ref)
    ctx.check_eq("reference weights", w.reshape(-1), want)


def normalised(ctx, cfg):
    """With the charge scaling of the references themselves the weights sum to one."""
    from tad_dftd4.model import D4Model

    Z = cfg["Z"]
    num = torch.tensor([Z])
    cn = ctx.real("cn", 0, 12)
    q = ctx.real("q", -0.9, 2)
    T = C.tables()
    w = ctx.entries(D4Model(num, dtype=C.DT).weight_references(ctx.tensor([cn]), ctx.tensor([q])))
    tot = []
    for r in range(7):
        if T["refc"][Z][r]:
            ze = T["zeff"][Z]
            z = C.zeta(ctx, ctx.lit(3), ctx.lit(T["gam"][Z]) * 2, ctx.lit(T["q"][Z][r]) + ze, q + ze)
            tot.append(w[r] / z)
            ctx.check_le("weight >= 0", ctx.lit(0), w[r])
        else:
            ctx.check_eq("no reference", [w[r]], [ctx.lit(0)])
    ctx.check_eq("normalisation", [ctx.sum(tot)], [ctx.lit(1)])


def underflow(ctx, cfg):
    """Weights where Gaussians underflow (D4 and D4S).

    Z: rows of atomic numbers; cns: per atom a number or a range."""
    from tad_dftd4.model import D4Model, D4SModel

    ctx.flush()
    ctx.fork_mode()
    sysm, cns = cfg["Z"], cfg["cns"]
    nb, n = len(sysm), len(sysm[0])
    lead = cfg.get("lead", [nb])
    d4s = cfg.get("model") == "d4s"
    num = torch.tensor(sysm).reshape(*lead, n)
    cn = [[ctx.real(f"cn{b}_{i}", *cns[b][i]) if isinstance(cns[b][i], (tuple, list)) else ctx.lit(cns[b][i]) for i in range(n)] for b in range(nb)]
    q = ctx.lit(cfg.get("q", 0.1))
    T = C.tables()
    t = ctx.tensor(cn, requires_grad=cfg.get("grad", False))
    m = (D4SModel if d4s else D4Model)(num, dtype=C.DT)
    w = m.weight_references(t.reshape(*lead, n), ctx.tensor([[q] * n] * nb).reshape(*lead, n))
    ctx.check_finite("finite", w)
    want, idx = [], []
    pos = 0
    for b in range(nb):
        for p in range(n) if d4s else [None]:
            for i in range(n):
                z = sysm[b][i]
                pos += 7
                if p is not None and not sysm[b][p]:
                    continue
                idx += range(pos - 7, pos)
                if z == 0:
                    want += [ctx.lit(0)] * 7
                    continue
                want += fallback(ctx, T, z, cn[b][i], q, ctx.lit(T["wf"][z][sysm[b][p]] if d4s else 6.0))
    g = ctx.entries(w)
    ctx.check_eq("weights", [g[k] for k in idx], want)
    if cfg.get("grad"):
        (d,) = torch.autograd.grad(w.sum(), t)
        ctx.check_finite("gradient", d)


def fallback(ctx, T, z, cn, q, wf):
    refs = [r for r in range(7) if T["refc"][z][r]]
    top = max(T["cn"][z][r] for r in refs)
    g = C.gauss(ctx, z, cn, wf, T)
    norm = ctx.sum([g[r] for r in refs])
    gone = ctx.decide(ctx.eq(norm, 0))
    want = []
    for r in range(7):
        if r not in refs:
            want.append(ctx.lit(0))
            continue
        ze = T["zeff"][z]
        s = C.zeta(ctx, ctx.lit(3), ctx.lit(T["gam"][z]) * 2, ctx.lit(T["q"][z][r]) + ze, q + ze)
        if gone:
            want.append(s if T["cn"][z][r] == top else ctx.lit(0))
        else:
            want.append(s * g[r] / norm)
    return want


UNDER = [
    ([[1, 6]], [[(13, 45), 2.9]]),
    ([[26, 1]], [[3.0, (13, 45)]]),
    ([[1, 6, 0]], [[(30, 45), (30, 45), 0.0]]),
    ([[1, 6], [92, 0], [2, 3]], [[(30, 40), 3.5], [20.0, 0.0], [1.0, (30, 50)]]),
    ([[1, 6], [92, 0]], [[2.0, 3.5], [(2, 30), 0.0]]),
    ([[0, 8, 79]], [[0.0, (20, 45), 1.1]]),
]


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    step = 13
    for a in range(1, 104, step):
        add("weights", Z=[list(range(a, min(a + step, 104)))], lead=[])
    for a in range(1, 87, 22):
        add("weights", Z=[list(range(a, min(a + 22, 87)))], lead=[], ref="gfn2")
    add("weights", Z=[[6, 1, 0], [8, 1, 1]])
    add("weights", Z=[[0, 26, 0, 7]], lead=[])
    add("weights", Z=[[6, 1], [8, 0], [9, 9], [14, 17]], lead=[2, 2])
    add("weights", Z=[[6]], lead=[])
    add("weights", Z=[[6, 8, 22, 92]], lead=[], ga=2.0, gc=1.5, wf=4.0)
    add("weights", Z=[[6, 8, 1]], lead=[], wf="sym")
    add("weights", Z=[[6, 8, 1]], lead=[], ga=2, gc=1, wf=5)
    add("weights", Z=[[6, 8, 1, 0]], lead=[], q=False)
    add("weights", Z=[[6, 8, 1, 0]], lead=[], cn=False)
    add("weights", Z=[[6, 8, 1, 0]], lead=[1], cn=False, q=False)
    add("weights", Z=[[1, 3, 11, 2]], lead=[], qb=9)
    add("weights", Z=[[6, 26, 0, 92, 89]], lead=[], qb=6, cnmax=20)
    for z in (1, 6, 26, 80):
        add("normalised", Z=z)
    for z, rng in ((1, (0, 40)), (6, (2, 40)), (26, (0, 60)), (2, (0, 40)), (92, (0, 60))):
        J.append(dict(fn="underflow", cfg=dict(Z=[[z]], cns=[[rng]], lead=[]), max_paths=200))
    J.append(dict(fn="underflow", cfg=dict(Z=[[6]], cns=[[(14, 60)]], lead=[], grad=True), max_paths=200))
    for z, c in UNDER:
        J.append(dict(fn="underflow", cfg=dict(Z=z, cns=c, grad=True), max_paths=400))
    opt = dict(shape=C.SHAPES, ref=["eeq", "gfn2"], wf=[C.NO, 4.0, 9.0], ga=[C.NO, 2.0], gc=[C.NO, 1.5], cn=[True, False], q=[True, False], qb=[2.5, 5])
    for k in C.options(opt, t=3 if tier == "thorough" else 2):
        lead, zs = k.pop("shape")
        add("weights", Z=zs, lead=lead, **k)
    if tier == "thorough":
        for z in range(1, 104):
            J.append(dict(fn="underflow", cfg=dict(Z=[[z]], cns=[[(0, 60)]], grad=True), max_paths=400))
        for z in range(1, 104):
            add("normalised", Z=z)
        for a in range(1, 104, 26):
            add("weights", Z=[list(range(a, min(a + 26, 104)))], lead=[], wf=4.5, ga=2.5, gc=1.7, ref="gfn2" if a < 60 else "eeq")
    return J
