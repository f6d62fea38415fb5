"""C05: pair-resolved D4S weights."""

import math

import torch

from . import common as C

EXPLANATION = """
D4SModel runs on symbolic coordination numbers and charges: z3 compares the
weight of every reference of atom n seen from partner m with the Gaussian
weight of width wf(Z_n, Z_m), the resulting C6 matrix with the sum over both
atoms' references, and the polarizabilities with the average over the real
partners.  Underflow configurations as in C04 (fallback per atom and partner).  With one uniform width the model is shown to reproduce D4.
"""
ASSUMPTIONS = [
    "0 <= CN <= 12 (underflow configurations: up to 60), -2.5 <= q <= 2.5",
    "underflow configurations assume that no Gaussian lands in the subnormal range exp(-746)..exp(-700)",
]


def wf_of(a, b):
    return C.tables()["wf"][a][b]


def inputs(ctx, cfg):
    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    lead = cfg.get("lead", [nb])
    cn = [[ctx.real(f"cn{b}_{i}", 0, 12) for i in range(n)] for b in range(nb)]
    if cfg.get("cns") == "num":
        cn = [[ctx.lit(round(1.3 + math.sin(1.1 * i + b), 2)) for i in range(n)] for b in range(nb)]
    q = [[ctx.real(f"q{b}_{i}", -2.5, 2.5) for i in range(n)] for b in range(nb)]
    num = torch.tensor(sysm).reshape(*lead, n)
    return sysm, nb, n, lead, cn, q, num


def table(ctx, cfg, cn, q, wf=None):
    """w[b][m][n] : weights of atom n seen from m."""
    out = []
    for b, Z in enumerate(cfg["Z"]):
        n = len(Z)
        rows = []
        for m in range(n):
            row = []
            for k in range(n):
                if Z[k] == 0:
                    row.append([ctx.lit(0)] * 7)
                else:
                    f = wf_of(Z[k], Z[m]) if wf is None else wf
                    row.append(C.weights(ctx, Z[k], cn[b][k], q[b][k], f, ref=cfg.get("ref", "eeq"), **_kw(cfg)))
            rows.append(row)
        out.append(rows)
    return out


def _kw(cfg):
    return {k: cfg[k] for k in ("ga", "gc") if k in cfg}


def weights(ctx, cfg):
    from tad_dftd4.model import D4SModel

    sysm, nb, n, lead, cn, q, num = inputs(ctx, cfg)
    model = D4SModel(num, ref_charges=cfg.get("ref", "eeq"), dtype=C.DT, **_kw(cfg))
    w = model.weight_references(ctx.tensor(cn).reshape(*lead, n), ctx.tensor(q).reshape(*lead, n))
    ctx.check_bool("shape", tuple(w.shape) == (*lead, n, n, 7))
    T = table(ctx, cfg, cn, q)
    got, want = [], []
    g = ctx.entries(w)
    k = 0
    for b in range(nb):
        for m in range(n):
            for a in range(n):
                for r in range(7):
                    if sysm[b][m]:  # weights towards padding have no meaning
                        got.append(g[k])
                        want.append(T[b][m][a][r])
                    k += 1
    ctx.check_eq("D4S weights", got, want)


def widths(ctx, cfg):
    """Every pair of elements: fixed coordination numbers between the
    references (where the width matters), one symbolic charge."""
    from tad_dftd4.model import D4SModel

    ref = cfg.get("ref", "eeq")
    T = C.tables(ref)
    zs = cfg["Z"]
    q = ctx.real("q", -0.5, 2)
    cn = []
    for z in zs:
        v = sorted({T["cn"][z][r] for r in range(7) if T["refc"][z][r]})
        gaps = [(y - x, x) for x, y in zip(v, v[1:])]
        cn.append(ctx.lit(v[0] + 0.3 if not gaps else (lambda g: g[1] + 0.55 * g[0])(min(gaps))))
    w = D4SModel(torch.tensor(zs), ref_charges=ref, dtype=C.DT).weight_references(ctx.tensor(cn), ctx.tensor([q] * len(zs)))
    want = []
    for p in zs:
        for z, c in zip(zs, cn):
            want += C.weights(ctx, z, c, q, wf_of(z, p), ref=ref)
    ctx.check_eq("D4S weights", w.reshape(-1), want)


def user_wf(ctx, cfg):
    """A matrix of widths handed to the model: row = the weighted atom."""
    from tad_dftd4.model import D4SModel

    sysm, nb, n, lead, cn, q, num = inputs(ctx, cfg)
    if cfg.get("symwf"):
        wf = [[[ctx.real(f"wf{b}_{i}_{j}", 2, 8) for j in range(n)] for i in range(n)] for b in range(nb)]
        cn = [[ctx.lit([1.1, 2.4, 0.3][i % 3]) for i in range(n)] for b in range(nb)]
    else:
        wf = [[[ctx.lit(3.0 + 0.5 * ((3 * i + 5 * j + b) % 7)) for j in range(n)] for i in range(n)] for b in range(nb)]
    model = D4SModel(num, wf=ctx.tensor(wf).reshape(*lead, n, n), ref_charges=cfg.get("ref", "eeq"), dtype=C.DT, **_kw(cfg))
    w = model.weight_references(ctx.tensor(cn).reshape(*lead, n), ctx.tensor(q).reshape(*lead, n))
    want, got = [], []
    g = ctx.entries(w)
    k = 0
    for b in range(nb):
        Z = sysm[b]
        for m in range(n):
            for a in range(n):
                v = C.weights(ctx, Z[a], cn[b][a], q[b][a], wf[b][a][m], ref=cfg.get("ref", "eeq"), **_kw(cfg)) if Z[a] else [ctx.lit(0)] * 7
                for r in range(7):
                    if Z[m]:
                        got.append(g[k])
                        want.append(v[r])
                    k += 1
    ctx.check_eq("D4S weights with given widths", got, want)


def c6(ctx, cfg):
    from tad_dftd4.model import D4SModel

    sysm, nb, n, lead, cn, q, num = inputs(ctx, cfg)
    model = D4SModel(num, ref_charges=cfg.get("ref", "eeq"), dtype=C.DT, **_kw(cfg))
    w = model.weight_references(ctx.tensor(cn).reshape(*lead, n), ctx.tensor(q).reshape(*lead, n))
    got = model.get_atomic_c6(w)
    ctx.check_bool("shape", tuple(got.shape) == (*lead, n, n))
    T = table(ctx, cfg, cn, q)
    want = []
    for b in range(nb):
        Z = sysm[b]
        for i in range(n):
            for j in range(n):
                want.append(C.atomic_c6(ctx, Z[i], Z[j], T[b][j][i], T[b][i][j], ref=cfg.get("ref", "eeq"), **_kw(cfg)) if Z[i] and Z[j] else ctx.lit(0))
    ctx.check_eq("D4S C6", got.reshape(-1), want)


def pols(ctx, cfg):
    """Weighted polarizabilities for arbitrary weights."""
    from tad_dftd4.model import D4SModel

    sysm = cfg["Z"]
    nb, n = len(sysm), len(sysm[0])
    lead = cfg.get("lead", [nb])
    num = torch.tensor(sysm).reshape(*lead, n)
    model = D4SModel(num, ref_charges=cfg.get("ref", "eeq"), dtype=C.DT, **_kw(cfg))
    g = [[[[ctx.real(f"w{b}_{m}_{a}_{r}", 0, 1) for r in range(7)] for a in range(n)] for m in range(n)] for b in range(nb)]
    gt = ctx.tensor(g).reshape(*lead, n, n, 7)
    got = model.get_weighted_pols(gt)
    stat = model.get_polarizabilities(gt)
    ctx.check_bool("shape", tuple(got.shape) == (*lead, n, 23) and tuple(stat.shape) == (*lead, n))
    want, ws = [], []
    for b in range(nb):
        Z = sysm[b]
        real = [m for m in range(n) if Z[m]]
        for a in range(n):
            al = C.ref_alpha(Z[a], ref=cfg.get("ref", "eeq"), **_kw(cfg))
            for x in range(23):
                v = ctx.sum([g[b][m][a][r] * al[r][x] for m in real for r in range(7) if al[r][x] != 0]) / max(len(real), 1)
                want.append(v if Z[a] else ctx.lit(0))
                if x == 0:
                    ws.append(want[-1])
    ctx.check_eq("weighted polarizabilities", got.reshape(-1), want)
    ctx.check_eq("static polarizabilities", stat.reshape(-1), ws)


def reduction(ctx, cfg):
    """Uniform width: D4S weights, C6 and polarizabilities equal D4's."""
    from tad_dftd4.model import D4Model, D4SModel
    from tad_dftd4.model.d4s import D4SDebug

    sysm, nb, n, lead, cn, q, num = inputs(ctx, cfg)
    CN, Q = ctx.tensor(cn).reshape(*lead, n), ctx.tensor(q).reshape(*lead, n)
    a = D4Model(num, dtype=C.DT)
    if cfg.get("wform"):
        # one number for all pairs
        w = cfg.get("wf", 6.0)
        v = {"float": float(w), "int": int(w), "tensor": torch.tensor(float(w), dtype=C.DT), "vector": torch.tensor([float(w)], dtype=C.DT)}[cfg["wform"]]
        if cfg.get("symwf"):
            v = ctx.tensor(ctx.real("wf", 2, 9))
        a = D4Model(num, wf=v, dtype=C.DT, ref_charges=cfg.get("ref", "eeq"))
        b = D4SModel(num, wf=v, dtype=C.DT, ref_charges=cfg.get("ref", "eeq"))
    elif cfg.get("debug", True):
        b = D4SDebug(num, dtype=C.DT)
    else:
        b = D4SModel(num, wf=torch.full((*lead, n, n), 6.0, dtype=C.DT), dtype=C.DT)
    wa, wb = a.weight_references(CN, Q), b.weight_references(CN, Q)
    ctx.check_eq("weights", wb, wa.unsqueeze(-3).expand(*lead, n, n, 7))
    ctx.check_eq("C6", b.get_atomic_c6(wb), a.get_atomic_c6(wa))
    ctx.check_eq("polarizabilities", b.get_polarizabilities(wb), a.get_polarizabilities(wa))
    if n == 2:
        ctx.check_eq("weighted polarizabilities", b.get_weighted_pols(wb), a.get_weighted_pols(wa))


def underflow(ctx, cfg):
    from . import c04

    c04.underflow(ctx, dict(cfg, model="d4s"))


def jobs(tier):
    J = []

    def add(fn, **k):
        J.append(dict(fn=fn, cfg=k))

    add("widths", Z=list(range(1, 104)))
    for k, (lead, zs) in enumerate(C.SHAPES):
        add("reduction", Z=zs, lead=lead, wform=["float", "int", "tensor", "vector"][k % 4], wf=[4.0, 7.0, 6.0][k % 3], ref=["eeq", "gfn2"][k % 2] if k != 7 else "eeq")
    add("reduction", Z=[[6, 8]], lead=[], wform="tensor", symwf=True)
    for zs in ([6, 1, 8], [14, 26, 17, 3], [79, 92, 103], [5, 7, 9, 16], [1, 1], [2]):
        add("weights", Z=[zs], lead=[])
    add("weights", Z=[[6, 8, 79]], lead=[], ref="gfn2")
    add("weights", Z=[[6, 1, 0], [8, 1, 1], [0, 17, 3]])
    add("weights", Z=[[6, 1], [8, 0], [9, 7], [14, 17]], lead=[2, 2])
    add("weights", Z=[[0, 8, 1]], lead=[1])
    add("user_wf", Z=[[6, 1]], lead=[])
    add("user_wf", Z=[[6, 0, 8], [7, 17, 1]])
    add("user_wf", Z=[[2, 1]], lead=[], symwf=True)
    add("user_wf", Z=[[6, 8]], lead=[], symwf=True)
    for a in range(1, 104, 8):
        # batches of single atoms: the diagonal width
        add("weights", Z=[[z] for z in range(a, min(a + 8, 104))])
    for z in (6, 14, 26, 92):
        add("weights", Z=[[z]], lead=[])
        add("reduction", Z=[[z]], lead=[], debug=False)
    add("c6", Z=[[6, 1]], lead=[])
    add("c6", Z=[[1, 2, 7]], lead=[])
    add("c6", Z=[[1, 0, 7], [2, 1, 1]])
    add("c6", Z=[[2, 1], [10, 0], [1, 18], [1, 1]], lead=[2, 2])
    add("pols", Z=[[6, 1, 8]], lead=[])
    add("pols", Z=[[6, 0, 8], [1, 3, 0]])
    add("pols", Z=[[6, 8], [1, 0], [9, 9], [26, 92]], lead=[2, 2])
    add("reduction", Z=[[6, 1, 8]], lead=[])
    add("reduction", Z=[[6, 1, 0], [8, 26, 3]])
    add("reduction", Z=[[6, 1], [8, 7]], debug=False)
    add("reduction", Z=[[6, 1], [8, 7], [9, 0], [2, 1]], lead=[2, 2])
    opt = dict(shape=C.SHAPES, fn=["weights", "user_wf", "c6", "pols"], ref=["eeq", "gfn2"], ga=[C.NO, 2.0], gc=[C.NO, 1.5])
    for k in C.options(opt, t=3 if tier == "thorough" else 2):
        lead, zs = k.pop("shape")
        add(k.pop("fn"), Z=zs, lead=lead, cns="num", **k)
    from .c04 import UNDER

    for z, c in UNDER:
        J.append(dict(fn="underflow", cfg=dict(Z=z, cns=c, grad=True), max_paths=400))
    J.append(dict(fn="underflow", cfg=dict(Z=[[6, 1]], cns=[[(2, 40), 1.0]], lead=[]), max_paths=400))
    if tier == "thorough":
        for z in range(1, 104, 3):
            J.append(dict(fn="underflow", cfg=dict(Z=[[z, 104 - z]], cns=[[(0, 60), 2.0]], grad=True), max_paths=800))
        for a in range(1, 104, 6):
            add("weights", Z=[list(range(a, min(a + 6, 104)))], lead=[])
        for a in range(1, 100, 17):
            add("weights", Z=[[a, 104 - a, (a * 7) % 103 + 1, (a * 31) % 103 + 1]], lead=[])
            add("c6", Z=[[a, 104 - a]], lead=[])
        for a in range(1, 100, 5):
            add("reduction", Z=[[a, a + 1, a + 2]], lead=[])
            add("pols", Z=[[a, a + 1, a + 2]], lead=[])
    return J
